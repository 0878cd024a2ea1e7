"""The hand-written parts of DESIGN.md (see make_design.py)."""

HEAD = '''
# Design

Technique for every property: property-based testing. Each property is one module under `checks/`; a module has facets, each a
Hypothesis strategy of plain (JSON-encodable) cases plus an oracle that does not use the code under test. `lib/harness.py` runs
the facets in parallel processes (some split into shards), seeded by VERIF_SEED, counts cases and non-trivial ones by the rule
in the module's docstring, shrinks a failure and writes it to `evidence/<id>.<facet>.replay.json`; `./check <id> --replay FILE`
runs that case again. Quick runs have a budget of 150 s of search, thorough ones 700 s (`VERIF_TIER=thorough ./check <id>`); most quick
runs take 5 to 30 s, which is what each property costs on every change.

`lib/build.sh` translates /repo's current tree to Python 3 with the translator of the sandbox (as /opt/vp/build.sh does, but
into /verif/build), builds its C and Cython extensions, and for C01, C08, C11 and C25 compiles the C++ library with
`lib/cpp/driver.cpp`, a small program that calls it on request. A check whose build fails exits with 2 (no verdict).
An exception of the code under test on a valid case counts as a violation: the code has to give the answer, not only avoid
giving a wrong one. Invalid input has its own facets, which require the documented refusal.

Judging behaviour and not text: every oracle works on values returned, files written or calls made to recorders; internal
functions are called only where they are the public entry points of their module. Where code and oracle round
differently, cases within the rounding of a decision (a threshold, a cell edge) are not decided, and tolerances were set after
runs with several seeds.

Helpers: `lib/refpattern.py` (exhaustive reader of naming patterns), `lib/refcksum.py` (POSIX cksum from its definition),
`lib/refspde.py` (dense finite elements and lattices, complex-step derivatives), `lib/genelements.py` (every kind of model
element with dense reference design, function and precision), `lib/genobjects.py`, `lib/genfields.py`, `lib/genpattern.py`
(strategies), `verifops/` (recorder operations for C06).

## Properties
'''

NOTES = {
 'C01': 'dates 1700 to 2300 to the microsecond; day and year numbers are doubles, so the inverse is required to the resolution of that number.',
 'C02': 'names of up to about 40 characters, patterns of one or two levels. Where a name can be read in several ways, any one reading is accepted.',
 'C03': 'trees of up to about 12 files per case; symbolic links and unreadable directories are not generated.',
 'C04': 'up to three inputs and three years. Steps of `examples/placeholder.py` are checked although they cannot be changed here.',
 'C05': 'what NetCDF cannot tell apart (missing member, empty list, empty text) is one and the same in the oracle.',
 'C06': 'operations are recorders in `verifops/`; scheduling is checked on the suite text, since no scheduler runs here. Runs are separate processes only where the command line is the interface.',
 'C07': 'up to several hundred files, around multiples of the thread count, so that chunking is covered on both sides of each boundary.',
 'C08': 'files are written by Python and read by both; the build makes binary files behave as in Python 2 (`support.python2_binary_files`), since the magic-number comparison of the original is between byte strings. Damaged files (cut at any byte, absent) must be refused by both readers.',
 'C09': 'the NetCDF writer of this part subclasses the iris of its time and cannot write with iris 3.10, so what is handed to the writer is checked.',
 'C10': 'cell sizes are dyadic so that edges are exact; sums are compared in double precision with a tolerance for the order of addition.',
 'C11': 'levels up to 7 in thorough runs (the real analysis uses 7). UGRID loading does not work in iris 3.10, so files are read with netCDF4 and the C++ reader.',
 'C12': 'weights are checked at interior points; on a side or vertex the spherical weights of the original are undefined in places and only the triangle is checked there.',
 'C13': 'random parts are checked by statistics of 400 samples with wide limits (false alarms below 1e-6 per run). `SpaceTimeComponentSolutionStorageBatched_Files.measurement_read` is unusable and never called and is not checked.',
 'C14': 'MKL PARDISO and CHOLMOD are the real libraries. `marginal_variance_Q_inv` refuses when an element of the inverse is exactly nought; that refusal is allowed.',
 'C15': 'grids of covariates with ascending latitudes and longitudes -180 to 180, as the files used by the project.',
 'C16': 'derivatives compared with the complex step through a dense reference; ill-conditioned cases (above 1e9) are not decided.',
 'C17': 'lattices up to about 100 nodes, spheres up to level 3. Points on the boundary of a regional view are not decided. The variance facet uses a fine sphere and a tolerance of the discretisation.',
 'C18': 'up to three components; convergence of the block iteration is required only where the exact block iteration of the oracle converges.',
 'C19': 'the regridder rounds spacing to three decimals and needs two latitudes and longitudes; prior uncertainty in the climatology fraction is estimated from 1000 samples in the code, so 35 per cent tolerance and only non-negative designs; the projector is not meant for delayed storages.',
 'C20': 'values outside the packing range are not generated.',
 'C21': 'the quality variables of station files have valid_range [0, 0], so they are read raw.',
 'C22': 'correlations are generated as products of factors so that the matrices are consistent.',
 'C23': 'verification requires one recognised variable only; deviations are generated against the specification as documented.',
 'C24': 'grids of at least 5 by 5 pixels; values within 1e-6 of a computed limit are not decided; times of day before 23:50, since days are float32.',
 'C25': 'break point files ordered by station and time. The C++ keeps break points with missing likelihood, and equality of times is strict as its comments state. Ties of the kernel policy at the threshold are not decided.',
 'C26': 'the grid is 24 by 48 cells, which the shape constant allows; the all-bits flag 65535 is the fill value and not generated; `latent_variable_check` cannot be imported under Python 3.',
 'C27': 'the lake date converter is wrapped because Python 3 hands it bytes; blank fields of ship files are not generated; a day absent from the station file must fail loudly.',
 'C28': 'precisions with condition above 1e8 are not decided; CHOLMOD may refuse during a line search. Convergence is judged by the gradient at the result.',
 'C29': 'the IDL models cannot run here: a program named idl, put on the path, takes their place and returns generated results, so that all Python around them is exercised. Grids of 6 by 12 cells (shape constant).',
 'C30': 'the batch system cannot run here: stand-ins for bsub, module, python and rm placed on the path record what is submitted, give job numbers and fail where asked; the recorded commands are then run against catalogues of generated counts, and what each job waits for, directly or through others, is compared with the jobs of the stages before it.',
 'C31': 'descriptors are built into a real catalogue and every operation of it is resolved as it would be to run it; the operations are compared with a model of the iterated analysis and as a history of files read and written. The catalogue is kept open while it is resolved (opening it takes most of the time otherwise). Settings that only affect memory use are not compared.',
 'C32': 'stores are written with the writers that C08 decides (file names are made by the check), then counted and inspected through the functions and the command lines of the tools. Sources of correlation ranges are stand-ins that check how they are made.',
}

MISSED = {
 'b23-no-correlation': ', missed at first; the check was strengthened and catches it',
 'b24-unlimited-dimension': ', missed at first; the check was strengthened and catches it',
 'b28-location-difference': ', missed at first; the check was strengthened and catches it',
 'b36-afternoon-inputs': ', missed at first; the check was strengthened and catches it',
 'b37-rules-pile-up': ', missed at first; the check was strengthened and catches it',
 'b38-model-killed': ', missed at first; the check was strengthened and catches it',
 'b39-earlier-session': ', missed at first; the check was strengthened and catches it',
 'b40-first-station': ', missed at first; the check was strengthened and catches it',
 'b41-same-stations-other-order': ', missed at first; the check was strengthened and catches it',
 'b42-near-the-equator': ', missed at first; the check was strengthened and catches it',
}

TAIL = '''
## Limits of the environment

- /repo is Python 2.7; it runs here as translated to Python 3.12 by the sandbox. Modules that cannot be imported after
  translation (generation.landsatgrid, inputcheck.deliverable_4_3_json, postprocess.latent_variable_check, some examples) are out
  of reach. Division of integers keeps the meaning of Python 2.
- iris 3.10 is much newer than the code: the project's NetCDF saver and UGRID loading do not work with it. Where output passes
  through the saver, what is handed to it is checked.
- IDL, the original data files and the job scheduler are not here; stand-ins take their place as described above.
- Nothing under an `examples` directory may be changed, so the one defect there is a known finding.

## Mutants

Besides the planted bugs, the checks were run against some hundreds of small changes: automatic ones (operators,
constants, conditions, dropped statements in the files of each property) and ones written by hand from the code of each property.
Survivors were judged one by one: either equivalent (the change cannot be seen from outside) or the generators or the oracle were
widened until the check reported them. They are not kept.

## Time and memory

A facet goes on after its stated number of cases, up to four times as many, while it has used less than its share of 25 s. A case
that takes more than 300 s or 3 GB is reported as a violation with that case as its replay: on the unchanged tree no case takes a
tenth of either. Running out of disk or memory of the sandbox itself is reported as no answer.

## Repairs

Every repair is one commit in /repo whose subject starts with "fix:"; known_findings.json lists them with their property, and
each was found by the check of that property failing on a generated case. The existing tests pass with all of them.
'''
