"""Writes /verif/properties.jsonl (run by hand after editing)."""
import json, os

P = []


def prop(id, title, statement, over, text, why, files, mechanism, observe):
    P.append({'id': id, 'title': title, 'statement': statement,
              'quantifier': {'over': over, 'text': text}, 'why_tests_cant': why,
              'anchors': {'files': files, 'mechanism': [{'name': n, 'where': w} for n, w in mechanism], 'observe_at': [observe]}})


prop('C01', 'Time conversions are exact, invertible and ordered',
     'Converting any date-time to a number of days, seconds, months or years since a reference date gives the true elapsed amount (fractions of a day, month or year included, for times before as well as after the reference), converting back gives the same instant to the resolution of that number, and a later instant never gets a smaller number. '
     'Decimal years, numeral date strings, date patterns and date dictionaries represent exactly the date-time they were built from. '
     'The C++ library converts calendar days to day numbers and back exactly as the Python one does.',
     ['inputs'], 'every date-time (to the microsecond) and every reference date in the range of years 1700-2300, and every day number; every text form of them',
     'The tests convert a handful of dates; leap years, sub-second times, times before the reference date and year or month ends are only met by chance.',
     ['src/eumopps/timeutils/timebase.py', 'src/eumopps/timeutils/datetime_numeric.py', 'src/eumopps/timeutils/datetime_dictionary.py', 'src/eustace/timeutils/epoch.py', 'src/eustace/timeutils/decimaltime.py', 'src/cpp/eustace/timeutils/timebase.cpp'],
     [('time bases', 'src/eumopps/timeutils/timebase.py'), ('EUSTACE epoch', 'src/eustace/timeutils/epoch.py'), ('C++ days', 'src/cpp/eustace/timeutils/timebase.cpp')],
     'values returned by the conversion functions and the C++ classes')

prop('C02', 'File names built from a naming pattern are read back as built',
     'Filling a file naming pattern with a time and tag values, and then matching that name against the same pattern (nested directory patterns included), recovers that time (to the fields present in the pattern) and every tag value. '
     'A name that does not begin with text of the form of the pattern is not matched; letters, digits, dots, hyphens, underscores and slashes of the pattern match only themselves. '
     'Which fields and tags a name is given depends on the pattern and that name alone, not on the other names searched.',
     ['inputs'], 'every naming pattern of literal text, date fields and tags, every time, every tag value and every perturbed name',
     'Tests use a few fixed names; a pattern language is a round trip over all patterns and names.',
     ['src/eumopps/catalogue/namepatterns.py', 'src/eumopps/timeutils/datetime_numeric.py', 'src/eumopps/timeutils/datetime_dictionary.py'],
     [('pattern matching', 'src/eumopps/catalogue/namepatterns.py NameCandidate, nested_search_patterns')],
     'match results of the search')

prop('C03', 'The catalogue lists every data file exactly once, with its own time and tags',
     'Searching a directory tree, or the members of tar archives, for a data set puts every file whose path fits a subset\'s naming patterns into that subset exactly once, with the time and tags its name states, and puts no other file there. '
     'Files of the tree that fit no subset are reported as non-matching, and files that fit but state an impossible date are reported as value errors, so that together these lists account for every file found. ',
     ['inputs', 'configurations'], 'every directory tree or archive and every set of data set definitions with one or more nested patterns',
     'Tests search one fixed tree; the guarantee is about all trees, including colliding or nested names and unusual characters.',
     ['src/eumopps/catalogue/search.py', 'src/eumopps/catalogue/namepatterns.py', 'src/eumopps/catalogue/dataset.py', 'src/eumopps/catalogue/storage.py'],
     [('search', 'src/eumopps/catalogue/namepatterns.py'), ('data set search', 'src/eumopps/catalogue/dataset.py'), ('storage', 'src/eumopps/catalogue/storage.py')],
     'data sets and non-matching lists of the catalogue')

prop('C04', 'Every processing step gets exactly the inputs and outputs of its own time',
     'For every step of a daily, monthly, annual or single-step operation, an input bound to a data set resolves to precisely those catalogued files whose time falls in that step (for annual batches of days: one reference per day of the period, in order, each to that day\'s file), never to a file of another time; a file that is not dated finely enough to tell steps apart is given to every step it is named for. '
     'When such a file is missing, the step is dropped, given a missing reference, or the build fails, according to the stated policy and no other way. '
     'Outputs are named from the step time so that two different steps never write the same file where the pattern tells them apart, and step numbers and step times determine each other.',
     ['inputs', 'configurations', 'histories'], 'every step size, start and end time, set of catalogued times (with gaps, in any order) and missing-data policy',
     'Tests use a few days without gaps; month ends, leap days, times outside the range and partially missing data need generation.',
     ['src/eumopps/catalogue/step.py', 'src/eumopps/catalogue/placeholder.py', 'src/eumopps/catalogue/operation.py', 'src/eumopps/catalogue/catalogue.py', 'src/eustace/analysis/advanced_standard/examples/placeholder.py', 'src/eustace/analysis/advanced_standard/examples/step.py', 'src/eustace/analysis/advanced_standard/examples/stepmidmonth.py'],
     [('steps', 'src/eumopps/catalogue/step.py'), ('placeholders', 'src/eumopps/catalogue/placeholder.py'), ('annual batches', 'src/eustace/analysis/advanced_standard/examples/placeholder.py')],
     'operation references in the built catalogue')

prop('C05', 'Catalogues and objects saved to file are read back equal',
     'A catalogue or supported object written as NetCDF and read back has the same data sets, file entries, times, tags, operations, parameters and identifiers as before, in the same order, and loading one part (a data set, an operation, a count) gives the same as loading everything. '
     'The JSON form of an object likewise reproduces the object, including nested objects, lists and dictionaries.',
     ['inputs', 'histories'], 'every catalogue and nested object made of the supported types, and every sequence of save, append and load',
     'A serialisation format is right only if it inverts on all values; tests save a few small objects.',
     ['src/eumopps/catalogue/fileio/formatnetcdf.py', 'src/eumopps/catalogue/fileio/formatjson.py', 'src/eumopps/netcdfobjects/netcdfobjects.py', 'src/eumopps/jsonobjects/jsonobjects.py'],
     [('NetCDF objects', 'src/eumopps/netcdfobjects/netcdfobjects.py'), ('JSON objects', 'src/eumopps/jsonobjects/jsonobjects.py')],
     'files written and objects loaded')

prop('C06', 'Batches run every operation exactly once, with its own parameters',
     'The operation and batch counts reported for an operation cover all its steps: running every index of every batch once performs each step exactly once, and an index outside the reported range performs none; grouped runs hand the results of exactly the steps of their batch to the outer operation. '
     'Each step is called with exactly the parameter values, step time and number, input file names (none where allowed to be missing), output file names, time stamp and catalogue identifier that the catalogue holds for it, nested parameters included, whether the catalogue was built at once or by updates. '
     'A name that fits more than one operation runs none, every build or update gives the catalogue a new identifier, and an operation catalogued under other code versions (of any part, or unversioned) runs only if that is explicitly allowed, and listing an operation does not run it; building a catalogue refuses to replace an existing one unless asked to. Suite templates schedule exactly the batches that cover every operation.',
     ['inputs', 'configurations', 'histories'], 'every number of operations, batch size and batch index, and every mix of parameter kinds',
     'Off-by-one errors at the last, partial batch are invisible at the sizes the tests use.',
     ['src/eumopps/catalogue/commandcount.py', 'src/eumopps/catalogue/commandrun.py', 'src/eumopps/catalogue/multiplecommandsrun.py', 'src/eumopps/catalogue/operation.py', 'src/eumopps/catalogue/operationparameters.py', 'src/eumopps/catalogue/fileio/formatnetcdf.py', 'src/eumopps/catalogue/build.py', 'src/eumopps/catalogue/jinja/batches.py', 'src/eumopps/catalogue/jinja/eumopps_cylc.py'],
     [('counts', 'src/eumopps/catalogue/commandcount.py'), ('run', 'src/eumopps/catalogue/commandrun.py'), ('parameters', 'src/eumopps/catalogue/operationparameters.py'), ('path names', 'src/eumopps/catalogue/fileio/formatnetcdf.py')],
     'calls received by the operation')

prop('C07', 'Every catalogued file is recorded with the checksum of its own contents',
     'Computing checksums of a data set gives every catalogued file the checksum and size of its own contents, however many files and subsets there are, and gives a file that cannot be read none. '
     'A catalogue built, updated or restricted to one data set and saved holds these checksums and sizes with the right files, and a build without checksums holds none.',
     ['inputs', 'configurations', 'histories'], 'every set of files and contents, number of files and subsets, and files that have disappeared',
     'Tests check one fixed file; pairing of results with files depends on how many files the worker threads share.',
     ['src/eumopps/catalogue/checksum.py', 'src/eumopps/catalogue/dataset.py', 'src/eumopps/catalogue/build.py'],
     [('checksum', 'src/eumopps/catalogue/checksum.py'), ('data set', 'src/eumopps/catalogue/dataset.py')],
     'checksums and sizes in the catalogue')

prop('C08', 'Raw binary observations are read back exactly, in Python and in C++',
     'Locations, observations, uncertainties, correlation ranges and location pointers written in raw binary form are read back as the same values in the same order, with masked observations and those of other days left out and identifiers kept, by the Python readers and by the C++ readers and input manager alike. '
     'A file of another format or of the wrong size is refused rather than misread, and so in Python are observations that were written for other locations.',
     ['inputs'], 'every set of locations and of observations (empty ones included), every number of locally correlated components, every day',
     'Binary layouts are right only if all writers and readers agree for all sizes; the tests read a few fixed files, and Python and C++ are tested apart.',
     ['src/eustace/analysis/fileio/observationsource_rawbinary.py', 'src/eustace/analysis/fileio/locationpointers.py', 'src/cpp/eustace/analysis/fileio/rawbinary.cpp', 'src/cpp/eustace/analysis/fileio/locationpointers.cpp', 'src/cpp/eustace/analysis/inputmanager.cpp'],
     [('Python files', 'src/eustace/analysis/fileio/observationsource_rawbinary.py'), ('C++ files', 'src/cpp/eustace/analysis/fileio/rawbinary.cpp'), ('C++ input manager', 'src/cpp/eustace/analysis/inputmanager.cpp')],
     'values returned by the readers')

prop('C09', 'Diagnostic grids summarise each cell\'s observations correctly, in any order',
     'Every unmasked observation is counted in the one grid cell that contains its location, and each cell reports the number, extremes, uncertainty extremes and inverse-uncertainty weighted sum and mean of exactly its observations of the day. '
     'Neither the order of the observations nor the way they are split over several sources changes the result.',
     ['inputs', 'schedules'], 'every set of observations, masks, locations (poles, date line and cell edges included), order and split',
     'Tests bin a few interior points; edges, ties and order are not enumerated.',
     ['src/eustace/analysis/diagnosticgrid.py', 'src/eustace/analysis/diagnosticgrid_aggregate.pyx', 'src/eustace/analysis/observationsource.py'],
     [('binning', 'src/eustace/analysis/diagnosticgrid.py'), ('aggregation', 'src/eustace/analysis/diagnosticgrid_aggregate.pyx')],
     'grids and the file they are saved to')

prop('C10', 'Satellite gridding bins each observation in its cell with exact statistics',
     'Each quality-accepted satellite observation contributes to exactly the grid cell that contains its coordinates, wrapping in longitude where asked for, and a coordinate outside the grid is refused and never moved into another cell. '
     'For every cell the count, mean, minimum, maximum, variance and propagated uncertainties equal those computed directly from that cell\'s observations, cells without observations are marked missing, and the order and splitting of observations over input files do not matter. A file that is missing, or cannot be used, is reported as such and adds nothing.',
     ['inputs', 'schedules'], 'every grid, set of observation coordinates and values, quality flags, and order or split over files',
     'Tests aggregate small fixed samples; cell edges, negative coordinates, wraps and multi-file accumulation need generation.',
     ['src/eustace/satgrid/grid.py', 'src/eustace/satgrid/aggregate.c', 'src/eustace/satgrid/aggregate_grid.py', 'src/eustace/satgrid/file_aggregate_grid.py', 'src/eustace/satgrid/satellite_file.py', 'src/eustace/satgrid_iris/pipeline.py', 'src/eustace/satgrid_iris/satellite.py', 'src/eustace/satgrid_iris/gridbin/gridbin.py', 'src/eustace/satgrid_iris/gridbin/gridfieldlist.py', 'src/eustace/satgrid_iris/gridbin/operation/'],
     [('satgrid', 'src/eustace/satgrid/'), ('satgrid_iris', 'src/eustace/satgrid_iris/gridbin/')],
     'gridded fields')

prop('C11', 'The spherical mesh is a consistent triangulation at every level',
     'At every subdivision level the mesh covers the unit sphere with triangles whose vertices are distinct unit vectors, every edge is shared by exactly two triangles, the vertex, edge and triangle numbers are those of a subdivided icosahedron, and orientation is the same for all. '
     'Triangle, neighbour and vertex numbering are consistent across levels and when the mesh is written to file and read back.',
     ['inputs', 'configurations'], 'every subdivision level that fits in memory and every triangle, vertex and neighbour number',
     'Tests look at levels 0 to 2 and at chosen triangles only.',
     ['src/eustace/analysis/mesh/mesh.py', 'src/eustace/analysis/mesh/geometry.py', 'src/eustace/analysis/mesh/irisconnector.py'],
     [('mesh', 'src/eustace/analysis/mesh/mesh.py')], 'mesh points and triangles')

prop('C12', 'Point location on the mesh finds the containing triangle and weights',
     'For every direction on the sphere (vertices, edges and poles included) the located triangle contains it, and the interpolation weights at its three vertices are non-negative, sum to one and reproduce the direction. '
     'Interpolating with these weights reproduces any value given at mesh vertices and any constant field. Weights in a triangle convert to those in the quarter of it that has the point. '
     'Latitude-longitude to Cartesian conversion and back is the identity.',
     ['inputs'], 'every latitude and longitude and every mesh level',
     'Tests locate a few points; points on edges and vertices are where a search fails.',
     ['src/eustace/analysis/mesh/locator.py', 'src/eustace/analysis/mesh/locator_search_planes.pyx', 'src/eustace/analysis/mesh/geometry.py', 'src/eustace/analysis/advanced_standard/stats/spde/spherical.py'],
     [('locator', 'src/eustace/analysis/mesh/locator.py'), ('projection', 'src/eustace/analysis/advanced_standard/stats/spde/spherical.py build_A')],
     'triangle numbers, weights and observation matrices')

prop('C13', 'Each component solution is the exact Gaussian posterior',
     'The state and uncertainty computed for a model component equal the exact conditional mean and standard deviation of the Gaussian prior given all observations of all time steps with their stated error covariance. '
     'The order in which time steps or observation sources are added, the batching of observations, and keeping data in memory or in files do not change the result; a time step without observations adds nothing, and processing one again replaces what was known of it. '
     'Components with a non-linear element are solved relative to the state they were linearised at.',
     ['inputs', 'histories', 'schedules'], 'every prior, set of observations per time step and source (empty days included), order, batching and storage kind',
     'The tests compare a few fixed systems; order and batching invariance quantify over histories.',
     ['src/eustace/analysis/advanced_standard/components/spacetime.py', 'src/eustace/analysis/advanced_standard/components/spatial.py', 'src/eustace/analysis/advanced_standard/components/component.py', 'src/eustace/analysis/advanced_standard/components/storage_inmemory.py', 'src/eustace/analysis/advanced_standard/components/storage_files.py', 'src/eustace/analysis/advanced_standard/components/storage_files_batch.py', 'src/eustace/analysis/advanced_standard/linalg/linearsystem.py'],
     [('measurement updates', 'src/eustace/analysis/advanced_standard/linalg/linearsystem.py'), ('solutions', 'src/eustace/analysis/advanced_standard/components/')],
     'state, uncertainty and samples of a component')

prop('C14', 'Sparse factorisation gives the same answers as dense linear algebra',
     'For every sparse symmetric positive definite matrix, solving, multiplying by and solving with factors, log-determinants, selected inverse elements, marginal variances and traces equal those of dense computation, for every back end. '
     'Samples generated from a precision matrix have it as their inverse covariance: the transformation from unit noise L satisfies L times its transpose equal to the inverse, and same noise gives same sample.',
     ['inputs'], 'every sparse symmetric positive definite matrix (permutations and disconnected blocks included) and right-hand side',
     'Tests use one or two small matrices, for which fill-reducing permutation is often the identity.',
     ['src/eustace/analysis/advanced_standard/linalg/extendedcholmodwrapper.py', 'src/eustace/analysis/advanced_standard/linalg/pardisowrapper.py', 'src/eustace/analysis/advanced_standard/linalg/qinv.pyx', 'src/eustace/analysis/advanced_standard/linalg/sparse.py', 'src/eustace/analysis/advanced_standard/linalg/wrapper.py'],
     [('factorisation', 'src/eustace/analysis/advanced_standard/linalg/')], 'returned vectors and matrices')

prop('C15', 'Every model element design is the true linearisation of its function',
     'For every model element the function value at any state equals the design matrix times the state (or, where the function is non-linear, the matrix equals its derivative at that state), with one row per observation and one column per state parameter. '
     'A combination of elements has the sum of their functions and the side-by-side join of their designs and start states, and each observation has the same function value whichever other observations it is given with.',
     ['inputs', 'configurations'], 'every element kind and configuration, every set of observation locations and times, every state',
     'Tests compare with stored numbers at chosen points.',
     ['src/eustace/analysis/advanced_standard/elements/'],
     [('elements', 'src/eustace/analysis/advanced_standard/elements/')], 'design matrices and function values')

prop('C16', 'Every prior is a valid Gaussian precision and its derivatives are exact',
     'For all valid hyperparameters, each element\'s prior precision is symmetric and positive definite with one row per state parameter, and a combination\'s prior is block diagonal in its elements\' priors. '
     'Stated derivatives with respect to each hyperparameter equal the rate of change of that precision, and hyperparameters set from a vector are read back as that vector.',
     ['inputs', 'configurations'], 'every element kind and every valid hyperparameter value',
     'Derivative and definiteness statements hold over a continuum of hyperparameters.',
     ['src/eustace/analysis/advanced_standard/elements/'],
     [('priors', 'src/eustace/analysis/advanced_standard/elements/')], 'precision matrices')

prop('C17', 'Random-field matrices on lattices and spheres have the stated structure',
     'Each row of an interpolation matrix of a lattice random field holds the basis function of the distance (cyclic where the dimension is) from the point to every node, and on the sphere (outside of sides and vertices of triangles) the weights of the vertices of the triangle around the point, which sum to one. '
     'Precision matrices for any valid smoothness order and parameters are symmetric positive definite and consistent across orders (the next order but one is obtained by applying the operator again), and node numbering is the same for nodes, interpolation and precision. '
     'A regional view of the sphere has the same local matrices as the whole.',
     ['inputs', 'configurations'], 'every lattice shape and number of dimensions, mesh level, smoothness order, range and scale parameters, and location',
     'Tests fix one order and one small lattice.',
     ['src/eustace/analysis/advanced_standard/stats/spde/lattice.py', 'src/eustace/analysis/advanced_standard/stats/spde/spherical.py', 'src/eustace/analysis/advanced_standard/stats/spde/spherical_view.py'],
     [('SPDE', 'src/eustace/analysis/advanced_standard/stats/spde/')], 'matrices returned')

prop('C18', 'The multi-component analysis converges to the joint solution',
     'Each component is updated against observations with the current expected values of all other components subtracted, so that iterating the components converges to the joint posterior mean of all components given all observations. '
     'The expected value, uncertainty and sample output at any place and time are those obtained by adding the components\' own contributions (uncertainties in quadrature). '
     'Results do not depend on whether solutions are held in memory or in files.',
     ['inputs', 'histories', 'configurations'], 'every set of components and observations, number of iterations, and storage kind',
     'Tests run one configuration with fixed data.',
     ['src/eustace/analysis/advanced_standard/analysissystem.py', 'src/eustace/analysis/advanced_standard/components/'],
     [('analysis system', 'src/eustace/analysis/advanced_standard/analysissystem.py')], 'evaluated expected values and uncertainties')

prop('C19', 'Gridded output is the average of the model over each grid cell',
     'The value output for each cell of a latitude-longitude grid is the area-consistent average of the model\'s value at the sampling points inside that cell, in the order of the output grid. '
     'How the computation is split in blocks does not change the result, and sample-based uncertainties equal those computed from all samples at once.',
     ['inputs', 'configurations'], 'every grid, cell sampling, blocking number, state and set of samples',
     'Tests use grids whose size is a multiple of the block number.',
     ['src/eustace/analysis/advanced_standard/fileio/output_projector.py', 'src/eustace/analysis/advanced_standard/fileio/output_structure_rectilinear.py', 'src/eustace/analysis/advanced_standard/fileio/observation_structure_source_connector.py'],
     [('projector', 'src/eustace/analysis/advanced_standard/fileio/output_projector.py')], 'projected arrays')

prop('C20', 'Global field files hold the given values, within packing precision',
     'A field written to an output file and read back equals the given one to within half a packing step for all values the packing can represent, masked cells (and only those) are missing, and latitude, longitude, time and their bounds describe the cells. '
     'Names, units and other metadata in the file are those of the variable definition and the stated attributes.',
     ['inputs'], 'every field of values within the packing range, every mask, day and defined variable',
     'Tests write one field; packing, fill value and masks interact over all values.',
     ['src/eustace/outputformats/outputvariable.py', 'src/eustace/outputformats/filebuilder.py', 'src/eustace/outputformats/globalfield_filebuilder.py', 'src/eustace/outputformats/globalfield.py', 'src/eustace/outputformats/definitions.py'],
     [('file builder', 'src/eustace/outputformats/globalfield_filebuilder.py')], 'NetCDF files')

prop('C21', 'Station files list each station\'s measurements at the right time and place',
     'Writing station data and reading it back gives, for each station, exactly its measurements at their times and nothing at other times, under the station\'s name, with its breaks and detection periods as given. '
     'Measurements at the same time (within the resolution) share one time entry, times are in order, and the order of input does not matter. Measurements of stations that are not described are never given to others.',
     ['inputs', 'schedules'], 'every collection of stations and measurement times and values in any order',
     'Tests write a few stations in order.',
     ['src/eustace/outputformats/stationdata.py', 'src/eustace/outputformats/stations.py'],
     [('station data', 'src/eustace/outputformats/stationdata.py'), ('station files', 'src/eustace/outputformats/stations.py')], 'NetCDF files')

prop('C22', 'Merged daily products hold the mean and uncertainty of the sources present',
     'Merging the outputs of several sources for a day gives in every cell the mean of exactly the sources that have data there, missing only where all are missing, and uncertainties propagated for that mean with the stated correlations between sources. '
     'Days for which a source has no file are merged from the remaining sources with main and ancillary files kept paired; the order of sources does not affect the mean.',
     ['inputs', 'fault_sequences'], 'every set of source fields and masks, correlation coefficients and pattern of missing files',
     'Tests merge two or three fixed small fields.',
     ['src/eustace/outputformats/filesmerger.py', 'src/eustace/outputformats/merge_multiple_outputs.py'],
     [('merger', 'src/eustace/outputformats/filesmerger.py')], 'merged files')

prop('C23', 'Product verification accepts conforming files and rejects any deviation',
     'A file written according to the product specification passes verification. '
     'A file that cannot be opened, lacks all specified variables, or in which a required attribute or dimension is missing or different, or a specified variable has another type or a missing or different attribute, is reported as failing.',
     ['inputs', 'fault_sequences'], 'every product file and every single deviation of it from the specification',
     'Tests try a few deviations.',
     ['src/eustace/outputformats/verify/'],
     [('verification', 'src/eustace/outputformats/verify/verify.py')], 'verification result')

prop('C24', 'The ice air-temperature model gives each pixel its own model and mask',
     'Each pixel with valid, quality-accepted surface temperature and uncertainty gets the air temperature and uncertainty components computed from its own values with the coefficients of its hemisphere and surface type, and every other pixel is missing. '
     'Total uncertainty is the quadrature sum of its components, and hemispheres are placed at their own latitudes in the global field.',
     ['inputs'], 'every field of inputs, masks and quality flags, day and model coefficients',
     'Tests use a few pixels.',
     ['src/eustace/surfaceairmodel/model_ice.py', 'src/eustace/surfaceairmodel/model_ice_input_processing.py'],
     [('ice model', 'src/eustace/surfaceairmodel/model_ice.py')], 'output fields')

prop('C25', 'Break points and station bias effects apply to the right stations and times',
     'Break point queries and filtering by likelihood keep exactly the break points that satisfy the stated rule, with times, stations and likelihoods staying paired, in Python and in C++ alike. '
     'Every observation of a station is assigned the bias parameter of the earliest break point of that station later than its time (the homogeneous period it ends), and none if there is no later one. '
     'Satellite observations share one parameter over all land and one over all ocean and have one for each hemisphere of ice; observations of other sources get none.',
     ['inputs'], 'every set of break points, likelihoods, stations, observation times and thresholds',
     'Tests use small fixed sets of break points.',
     ['src/cpp/eustace/analysis/break_points/break_points.cpp', 'src/eustace/analysis/observationsource.py', 'src/eustace/analysis/advanced_standard/elements/bias_insitu_land.py', 'src/eustace/preprocess/fileio/insitu_land_breakpoints.py'],
     [('break points', 'src/eustace/analysis/observationsource.py'), ('bias element', 'src/eustace/analysis/advanced_standard/elements/')], 'filtered break points, bias designs')

prop('C26', 'Quality flags are set and applied exactly where their condition holds',
     'Each quality check sets its flag in precisely the cells where its stated condition holds (window counts, calendar-day counts, thresholds, areal statistics), leaves all other flags as they were, and merging two flag files keeps every flag set in either, except that the areal flag of the second stands for missing marine data; flag files describe each flag by its own bit. '
     'Masking hides a cell if and only if one of the masking rules (these flags set and those not) applies to it. '
     'Monthly operations cover every day of the period exactly once.',
     ['inputs', 'histories'], 'every flag history, field, threshold, window and month',
     'There are hardly any tests of post-processing; windows and bit logic need all combinations.',
     ['src/eustace/postprocess/'],
     [('flags', 'src/eustace/postprocess/flags.py'), ('masking', 'src/eustace/postprocess/apply_mask.py')], 'flag fields, masks')

prop('C27', 'Observation sources deliver each observation with its own place and value',
     'Stations, ships and lakes are read with every measurement of the requested days and variable at the location, time and value recorded in the file (units converted, heights adjusted if asked), and exactly those missing, failing quality control where asked, or held out are masked; the daily files prepared from stations and ships hold just the unmasked ones of that day. '
     'Averaging minimum and maximum temperature gives their mean with combined uncertainty where both exist and is masked elsewhere, and joining observation sets keeps every observation with its own location.',
     ['inputs'], 'every input file content, day, quality flag pattern and hold-out list',
     'Tests read small fixed files.',
     ['src/eustace/preprocess/fileio/insitu_land.py', 'src/eustace/preprocess/fileio/insitu_ocean.py', 'src/eustace/surfaceairmodel/fileio/lake.py', 'src/eustace/analysis/preparedailyfixed.py', 'src/eustace/analysis/preparedailymobile.py', 'src/eustace/analysis/observationsource.py', 'src/eustace/preprocess/fileio/height_adjustment.py'],
     [('in-situ land', 'src/eustace/preprocess/fileio/insitu_land.py'), ('in-situ ocean', 'src/eustace/preprocess/fileio/insitu_ocean.py'), ('mean', 'src/eustace/analysis/observationsource.py Observations.mean')], 'observations returned')

prop('C28', 'The tuning cost is the exact marginal likelihood with its true gradient',
     'The cost function value used for tuning hyperparameters differs from the exact negative log marginal likelihood of the observations only by a constant independent of the hyperparameters, and the gradient reported with it is its true derivative. '
     'Tuning a component ends either at hyperparameters with no higher cost than those it started from and with a gradient of nought, or, when it does not converge, with those it started from; the hyperparameters saved are those it ended with. A component is given the observations recorded for exactly the days it is tuned on.',
     ['inputs'], 'every observation set, element combination and hyperparameter value',
     'Tests evaluate a single point.',
     ['src/eustace/analysis/advanced_standard/linalg/costfunction.py', 'src/eustace/analysis/advanced_standard/linalg/optimize.py', 'src/eustace/analysis/advanced_standard/optimizationsystem.py', 'src/eustace/analysis/advanced_standard/fileio/optimization_inputs.py', 'src/eustace/analysis/advanced_standard/components/spatialdelayed.py'],
     [('cost function', 'src/eustace/analysis/advanced_standard/linalg/costfunction.py'), ('tuning', 'src/eustace/analysis/advanced_standard/components/spatialdelayed.py DelayedSpatialComponentSolution.optimize')], 'cost values and gradients, and tuned hyperparameters')

prop('C29', 'Satellite air temperatures reach output files and observations unchanged',
     'For land and ocean, each day run (singly, in lists of days or from the command line) gives the air model exactly the files, parameters and date of that day, and writes files holding its temperatures in Kelvin, each uncertainty component under its own name, the total as the root of the sum of squares, and missing values exactly where the model has them or where the land minimum is above the maximum; when the model fails nothing is written and the failure is reported. '
     'Reading such files, the original land and ocean files, or the two hemispheres of ice files as observations gives every cell its own place, time, value, uncertainties and mask, and files which do not belong together are refused.',
     ['inputs'], 'every day, field, pattern of missing values (none and all included) and way to run',
     'The tests of these parts need the original data files or the IDL program, or use one fixed field.',
     ['src/eustace/surfaceairmodel/run_land.py', 'src/eustace/surfaceairmodel/run_ocean.py', 'src/eustace/surfaceairmodel/model_land.py', 'src/eustace/surfaceairmodel/model_ocean.py', 'src/eustace/surfaceairmodel/fileio/remap.py', 'src/eustace/surfaceairmodel/fileio/consistent.py', 'src/eustace/surfaceairmodel/fileio/post_processing.py', 'src/eustace/surfaceairmodel/fileio/cubemap.py', 'src/eustace/surfaceairmodel/fileio/land.py', 'src/eustace/surfaceairmodel/fileio/ocean.py', 'src/eustace/surfaceairmodel/fileio/ice.py'],
     [('names', 'src/eustace/surfaceairmodel/fileio/remap.py'), ('output', 'src/eustace/surfaceairmodel/fileio/consistent.py'), ('observations', 'src/eustace/surfaceairmodel/fileio/cubemap.py')], 'output files, configuration given to the model, observations returned')

prop('C30', 'Jobs submitted to the batch system run each operation once and in order',
     'Submitting an analysis to the batch system runs every operation of every module named exactly once, whatever their number, the batch size and the size of job arrays or groups, with all arguments passed on as given. '
     'Jobs of a stage start only when all jobs of the stages before it are done; when a submission fails or a module is not in the catalogue the script stops with an error and submits nothing more; conditions given to later stages name every job of the stage waited for.',
     ['inputs', 'schedules', 'fault_sequences'], 'every count of operations, batch size, group size, number of iterations, failing submission and order of job completion',
     'There are no tests of the submission scripts.',
     ['src/roses/fullstace/advanced_standard/', 'src/roses/fullstace/rawbinary/', 'src/roses/fullstace/diagnosticgrid/'],
     [('submission', 'src/roses/fullstace/advanced_standard/lsf_submission.py'), ('scripts', 'src/roses/fullstace/advanced_standard/runlsf_group.sh')], 'commands submitted and the conditions they wait for')

prop('C31', 'Generated analysis descriptors chain the iterations consistently',
     'The descriptors generated for any number of iterations, period, names and bias settings make a consistent analysis: measurement operations of a component read the solutions of this iteration for components solved before it and of the previous iteration for those solved after it, and the inputs of their own days; a solve reads all measurement files of its own component and iteration; samples are drawn in the last iteration; gridding reads the states and samples of the last iteration for its own days. '
     'Nothing is read before it is written and nothing is written twice; only the listed input sources are kept; unfilled fields (if asked to check) and no iterations are refused.',
     ['inputs'], 'every number of iterations, period, set of names, input sources and missing days',
     'Tests compare a few dictionaries with fixed ones.',
     ['src/eumopps/catalogue/jsonfiller.py', 'src/eustace/analysis/advanced_standard/examples/jsonfiller.py', 'src/roses/fullstace/advanced_standard/templates/'],
     [('filler', 'src/eumopps/catalogue/jsonfiller.py')], 'descriptors, and the parameters of each operation of catalogues built from them')

prop('C32', 'Summaries and inspection of inputs report what the files hold',
     'Counting observations over any period gives for each day the number in its file, or says that the file is missing, with totals, missing days and mean per day to match, and a source that cannot be read does not affect the counts of others. '
     'Inspecting a day lists each of its observations with its own place, value and uncertainties; location pointers and correlation ranges prepared from files are those of the files; and the descriptions of inputs of each day keep all details and their order when merged and read back.',
     ['inputs', 'fault_sequences'], 'every set of daily files, period, source, damaged file and order of days',
     'Tests count one small store; the other tools have no tests.',
     ['src/eustace/analysis/obscount.py', 'src/eustace/analysis/obscountsources.py', 'src/eustace/analysis/inspectinput.py', 'src/eustace/analysis/preparelocationpointers.py', 'src/eustace/analysis/preparecorrelationranges.py', 'src/eustace/analysis/advanced_standard/fileio/optimization_inputs.py'],
     [('counts', 'src/eustace/analysis/obscount.py'), ('inspection', 'src/eustace/analysis/inspectinput.py'), ('input summaries', 'src/eustace/analysis/advanced_standard/fileio/optimization_inputs.py')], 'what the tools print and write')

path = os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), 'properties.jsonl')
with open(path, 'w') as stream:
    for p in P:
        assert len(p['title']) <= 80, p['title']
        stream.write(json.dumps(p) + '\n')
