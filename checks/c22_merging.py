"""Cases: one to four sources with packed or float fields on small grids (or whole global files), each with any missing cells
(none and all included), values over the whole range and any consistent set of correlations between sources; any of the files
of a day missing, in main, ancillary or both. Oracle: mean and propagated uncertainty computed cell by cell from the sources
present. A case is non-trivial when some cell is present in some sources and missing in others, or when a file is missing."""

import io
import os
from contextlib import redirect_stdout

import netCDF4
import numpy
from hypothesis import strategies as st
from harness import facet, require, require_close, scratch

from eustace.outputformats import definitions
from eustace.outputformats.filesmerger import FilesMerger, clean_list_of_outputs_to_merge
from eustace.outputformats.globalfield_filebuilder import FileBuilderGlobalField
from eustace.outputformats.merge_multiple_outputs import merge_single_day_outputs, return_daily_outputs
from eustace.outputformats.outputvariable import OutputVariable
from eustace.surfaceairmodel.correlation_ranges import CorrelationRanges

KINDS = {'temperature': ('i2', -32768, 0.005, 273.15), 'uncertainty': ('i2', -32768, 0.001, 0.0), 'float': ('f4', -999.0, None, None), 'double': ('f8', 1e20, None, None)}
LABELS = ['AATSR', 'ATSR2', 'ATSR1', 'MODIS']


def correlations(factors):
    """consistent correlations between sources in the order of pairs (1,2), (1,3), ..."""
    n = len(factors)
    return [float(factors[i] * factors[j]) for i in range(n) for j in range(i + 1, n)]


@st.composite
def sources(draw):
    n = draw(st.integers(2, 4))
    rows, columns = draw(st.integers(1, 3)), draw(st.integers(1, 4))
    size = rows * columns
    fields = {}
    for name, kinds in [('tas', ['temperature', 'float', 'double']), ('tasuncertainty', ['uncertainty', 'float', 'double']), ('tas_unc_rand', ['uncertainty', 'float']), ('tas_unc_sys', ['uncertainty', 'float'])]:
        fields[name] = (draw(st.sampled_from(kinds)), [[draw(st.integers(0, 32767)) if 'unc' in name else draw(st.integers(-32767, 32767)) for _ in range(size)] for _ in range(n)])
    masks = [draw(st.one_of(st.just([False] * size), st.just([True] * size), st.lists(st.booleans(), min_size=size, max_size=size), st.lists(st.booleans(), min_size=size, max_size=size))) for _ in range(n)]
    factor = st.sampled_from([0.0, 0.0, 1.0, 0.5, -0.5, 0.25, 0.9])
    return {'n': n, 'shape': [1, rows, columns], 'fields': fields, 'masks': masks, 'factors': [[draw(factor) for _ in range(n)] for _ in range(2)], 'day': draw(st.integers(0, 65000)), 'other': draw(st.sampled_from([None, None, None, None, 0, 1]))}


def decoded(kind, raw):
    dtype, fill, scale, offset = KINDS[kind]
    return numpy.array(raw, float) * (scale or 1 / 64.0) + (offset or 0.0)


def write_small(path, case, names, source, day):
    with netCDF4.Dataset(path, 'w') as nc:
        for name, n in zip(['time', 'latitude', 'longitude'], case['shape']):
            nc.createDimension(name, n)
        nc.createVariable('time', 'f4', ('time',))[:] = [day]
        for name in names:
            kind, values = case['fields'][name]
            dtype, fill, scale, offset = KINDS[kind]
            variable = nc.createVariable(name, dtype, ('time', 'latitude', 'longitude'), fill_value=numpy.dtype(dtype).type(fill))
            if scale is not None:
                variable.scale_factor, variable.add_offset = scale, offset
            variable[:] = numpy.ma.masked_array(decoded(kind, values[source]), mask=case['masks'][source]).reshape(case['shape'])


def mean_of(values, present):
    total, number = numpy.where(present, values, 0.0).sum(axis=0), present.sum(axis=0)
    return total / numpy.maximum(number, 1), number == 0


def uncertainty_of(values, present, matrix):
    u = numpy.where(present, values, 0.0)
    number = numpy.maximum(present.sum(axis=0), 1)
    variance = numpy.einsum('i...,ij,j...->...', u, matrix, u)
    return numpy.sqrt(numpy.maximum(variance, 0.0)) / number, present.sum(axis=0) == 0


def matrix_of(pairs, n):
    matrix = numpy.eye(n)
    matrix[numpy.triu_indices(n, 1)] = pairs
    return matrix + numpy.triu(matrix, 1).T


def mixed(present):
    return bool(numpy.any(present.any(axis=0) & ~present.all(axis=0)))


@facet(sources(), quick=900, thorough=12000, cost=3, shards=4)
def fields_of_sources(case):
    """Small files of several sources"""
    n, shape = case['n'], tuple(case['shape'])
    primary, ancillary = ['tas', 'tasuncertainty'], ['tas_unc_rand', 'tas_unc_sys']
    make = lambda name: OutputVariable(name, numpy.float32, -999.0, long_name=name)
    pairs = [correlations(f) for f in case['factors']]
    present = ~numpy.array(case['masks']).reshape((n,) + shape)
    with scratch() as folder:
        names = {which: [os.path.join(folder, '%s_ocean_eustace_0_%s_20020714.nc' % (which, LABELS[i])) for i in range(n)] for which in ['tas', 'ancillary']}
        for i in range(n):
            write_small(names['tas'][i], case, primary, i, case['day'] + (1 if case['other'] == i else 0))
            write_small(names['ancillary'][i], case, ancillary, i, case['day'])
        merger = FilesMerger(names['tas'], names['ancillary'], numpy.array([n]), [make('tas')], [make('tasuncertainty')], [make(a) for a in ancillary], pairs)
        try:
            results = merger.merge_multiple_files(names['tas'], names['ancillary'])
        except ValueError:
            require(case['other'] is not None, 'sources of the same day are refused')
            return True
        require(case['other'] is None, 'sources of different days are merged')
    require(results['daynumber'] == case['day'], 'day %s, expected %s', results['daynumber'], case['day'])
    values = {name: decoded(*case['fields'][name]).reshape((n,) + shape) for name in primary + ancillary}
    expected = {'tas': mean_of(values['tas'], present), 'tasuncertainty': uncertainty_of(values['tasuncertainty'], present, numpy.eye(n))}
    for name, p in zip(ancillary, pairs):
        expected[name] = uncertainty_of(values[name], present, matrix_of(p, n))
    for name, (value, missing) in expected.items():
        found = results[name]
        require(found.shape == shape and numpy.array_equal(numpy.ma.getmaskarray(found), missing), '%s: missing %s, expected %s', name, numpy.ma.getmaskarray(found), missing)
        scale = max(1.0, numpy.abs(values[name]).max())
        single = case['fields'][name][0] == 'float'
        result = numpy.ma.getdata(found)[~missing].astype(float)
        if 'unc_' in name:
            # where sources cancel out, the root of a rounding error remains: compare variances
            require(numpy.all(result >= 0.0), '%s: uncertainty %s', name, result)
            require_close(result ** 2, value[~missing] ** 2, 'square of ' + name, 2e-5 if single else 1e-9, scale ** 2 * (3e-6 if single else 1e-12))
        else:
            require_close(result, value[~missing], name, 2e-6 if single else 1e-9, (1e-6 if single else 1e-9) * scale)
        for i in range(n):
            own = results[name + '_' + LABELS[i]]
            require(numpy.array_equal(numpy.ma.getmaskarray(own), ~present[i]), '%s of source %d: missing', name, i)
            require_close(numpy.ma.getdata(own)[present[i]], values[name][i][present[i]], '%s of source %d' % (name, i), 1e-6, 1e-9)
    require(set(results) == {'daynumber'} | set(expected) | {name + '_' + label for name in expected for label in LABELS[:n]}, 'results %s', sorted(results))
    return mixed(present)


states = st.sampled_from(['both', 'both', 'both', 'none', 'absent', 'main', 'ancillary'])


@facet(st.lists(states, min_size=1, max_size=5).flatmap(lambda s: st.fixed_dictionaries({'states': st.just(s), 'fields': st.integers(1, 3), 'nought': st.lists(st.integers(0, 39), max_size=6)})), quick=600, thorough=8000)
def missing_files(case):
    """Files which are missing take their correlations with them; a main file is never paired with another source's ancillary"""
    n = len(case['states'])
    # correlations by which the pair can be told, some of them nought
    label = lambda k, i, j: 0.0 if 10 * i + j in case['nought'] else float(100 * k + 10 * i + j)
    numbered = [[label(k, i, j) for i in range(n) for j in range(i + 1, n)] for k in range(case['fields'])]
    with scratch() as folder:
        main, ancillary = [], []
        for i, state in enumerate(case['states']):
            for which, paths, states_present in [('tas', main, ['both', 'main']), ('ancillary', ancillary, ['both', 'ancillary'])]:
                path = os.path.join(folder, '%s_%d.nc' % (which, i))
                if state in states_present:
                    open(path, 'w').close()
                paths.append(None if state == 'none' else path)
        kept = [i for i, state in enumerate(case['states']) if state == 'both']
        given = list(main), list(ancillary)
        count = numpy.zeros(1, numpy.int64)
        try:
            with redirect_stdout(io.StringIO()):
                clean_list_of_outputs_to_merge(main, ancillary, count, numbered)
        except ValueError:
            require(any(s in ('main', 'ancillary') for s in case['states']), 'complete pairs of files are refused')
            return True
        require(main == [given[0][i] for i in kept] and ancillary == [given[1][i] for i in kept], 'files %s and %s, expected those of sources %s', main, ancillary, kept)
        require(int(count[0]) == len(kept), '%d sources, expected %d', int(count[0]), len(kept))
        require(numbered == [[label(k, i, j) for i in kept for j in kept if j > i] for k in range(case['fields'])], 'correlations %s for sources %s', numbered, kept)
    return len(kept) < n


ANCILLARY = ['SURFACEAIRMODEL_ANCILLARY_OCEAN_TAS_UNCERTAINTY_RANDOM', 'SURFACEAIRMODEL_ANCILLARY_OCEAN_TAS_UNCERTAINTY_LOCALLYCORRELATED']
days = st.fixed_dictionaries({'states': st.lists(st.sampled_from(['both', 'both', 'both', 'none', 'absent']), min_size=1, max_size=3), 'seed': st.integers(0, 10 ** 6), 'masked': st.sampled_from([0.0, 0.5, 0.5, 0.9]), 'factors': st.lists(st.lists(st.sampled_from([0.0, 1.0, 0.5, 0.25]), min_size=3, max_size=3), min_size=2, max_size=2),
                              'day': st.integers(0, 65000), 'folder': st.sampled_from(['out', 'ocean_AATSR', 'v_0', 'x_ATSR2_y']), 'expected': st.sampled_from([True, True, True, False])})


@facet(days, quick=36, thorough=200, cost=40, shards=4)
def whole_days(case):
    """Whole files, merged for a day"""
    r = numpy.random.RandomState(case['seed'])
    n = len(case['states'])
    sources_present = [i for i, s in enumerate(case['states']) if s == 'both']
    variables = {'tas': [definitions.TAS, definitions.TASUNCERTAINTY], 'ancillary': [getattr(definitions, name) for name in ANCILLARY]}
    values = {v.name: {} for group in variables.values() for v in group}
    present = {}
    for group in variables.values():                  # ranges of correlation known from other cases are not those of this one
        for variable in group:
            for name in ('length_scale', 'length_scale_units', 'time_scale', 'time_scale_units'):
                if hasattr(variable, name):
                    setattr(variable, name, None)
    with scratch() as top:
        folder = os.path.join(top, case['folder'])
        os.mkdir(folder)
        paths = {which: [os.path.join(folder, '%s_ocean_eustace_0_%s_20020714.nc' % (which, LABELS[i])) for i in range(n)] for which in variables}
        for i in sources_present:
            present[i] = r.uniform(size=(1, 720, 1440)) >= case['masked']
            for which, group in variables.items():
                builder = FileBuilderGlobalField(paths[which][i], case['day'], 'global', '1', 'tas', 'i', 'c', 'h', 's')
                for variable in group:
                    raw = r.randint(-20000 if variable.name == 'tas' else 0, 20000, size=(1, 720, 1440))
                    values[variable.name][i] = raw * variable.scale_factor + variable.add_offset
                    builder.add_global_field(variable, numpy.ma.masked_array(values[variable.name][i], ~present[i]))
                builder.save_and_close()
        inputs = {which: [None if s == 'none' else p for s, p in zip(case['states'], paths[which])] for which in paths}
        outputs = {which: os.path.join(folder if case['expected'] else top, '%s_ocean_eustace_0_20020714.nc' % which) for which in paths}
        pairs = [correlations(f[:n]) for f in case['factors']]
        known = [('tas_unc_corr_sat', 123.0, 4.5), ('tas_unc_elsewhere', 7.0, 8.0)][::-1 if case['seed'] % 2 else 1]
        ranges = CorrelationRanges([k[0] for k in known], ['km', 'days'], [k[1] for k in known], [k[2] for k in known])
        arguments = return_daily_outputs('CAT', 'Office', [outputs['tas']], [outputs['ancillary']], repr(pairs), 'Merging from ', 'eustace.outputformats.definitions', ['TAS'], ['TASUNCERTAINTY'], ANCILLARY, ranges, inputs['tas'], inputs['ancillary'])
        try:
            with redirect_stdout(io.StringIO()):
                merge_single_day_outputs(**arguments)
        except ValueError:
            require(not case['expected'] and sources_present, 'merging is refused')
            return True
        if not sources_present:
            require(os.listdir(folder) == [], 'files %s from no sources', os.listdir(folder))
            return True
        require(case['expected'], 'files in unexpected places are not reported')
        require(sorted(os.listdir(folder)) == sorted(os.path.basename(p) for p in outputs.values()), 'files %s', os.listdir(folder))
        masks = numpy.array([present[i] for i in sources_present])
        count = len(sources_present)
        text = 'Merging from %s retrievals.' % ', '.join(LABELS[i] for i in sources_present)
        for which, group in variables.items():
            with netCDF4.Dataset(outputs[which]) as nc:
                require(nc.comment == text, 'comment %r, expected %r', nc.comment, text)
                require(float(nc.variables['time'][0]) == case['day'], 'time %s', nc.variables['time'][0])
                for index, variable in enumerate(group):
                    name = variable.name
                    all_values = numpy.array([values[name][i] for i in sources_present])
                    if which == 'tas' and index == 0:
                        expected, missing = mean_of(all_values, masks)
                    else:
                        matrix = numpy.eye(count) if which == 'tas' else matrix_of([case['factors'][index][i] * case['factors'][index][j] for i in sources_present for j in sources_present if j > i], count)
                        expected, missing = uncertainty_of(all_values, masks, matrix)
                    found = nc.variables[name][:]
                    require(numpy.array_equal(numpy.ma.getmaskarray(found), missing), '%s: %d missing, expected %d', name, int(numpy.ma.getmaskarray(found).sum()), int(missing.sum()))
                    require_close(numpy.ma.getdata(found)[~missing], expected[~missing], name, 1e-6, variable.scale_factor * 0.501)
                    if count > 1:
                        attributes = nc.variables[name].ncattrs()
                        if name == 'tas_unc_corr_sat':
                            require([nc.variables[name].getncattr(k) for k in ['length_scale', 'length_scale_units', 'time_scale', 'time_scale_units']] == [123.0, 'km', 4.5, 'days'], 'ranges of correlation: %s', attributes)
                        else:
                            require('length_scale' not in attributes and 'time_scale' not in attributes, '%s has ranges of correlation', name)
                        with netCDF4.Dataset(outputs['ancillary']) as other:
                            for i in sources_present:
                                own = other.variables[name + '_' + LABELS[i]][:]
                                require(numpy.array_equal(numpy.ma.getmaskarray(own), ~present[i]), '%s of %s: missing', name, LABELS[i])
                                require_close(numpy.ma.getdata(own)[present[i]], values[name][i][present[i]], name, 1e-6, variable.scale_factor * 0.501)
    return True


@facet(st.fixed_dictionaries({'counts': st.sampled_from([[2, 1], [1, 2, 1], [2, 1, 1], [1, 2], [1, 1], [2, 2], [1, 1, 2]]), 'values': st.lists(st.integers(-9000, 9000), min_size=6, max_size=6, unique=True), 'day': st.integers(0, 60000)}), quick=20, thorough=60, cost=40, shards=4)
def several_days(case):
    """Files of several days, each with one source or two: every day is made from its own files"""
    variables = {'tas': [definitions.TAS, definitions.TASUNCERTAINTY], 'ancillary': [definitions.SURFACEAIRMODEL_ANCILLARY_OCEAN_TAS_UNCERTAINTY_RANDOM]}
    with scratch() as folder:
        paths, expected, k = {'tas': [], 'ancillary': []}, [], 0
        for d, count in enumerate(case['counts']):
            values = [300.0 + case['values'][k + i] * 0.005 for i in range(count)]
            for i in range(count):
                for which, group in variables.items():
                    path = os.path.join(folder, '%s_ocean_eustace_0_%s_200207%02d.nc' % (which, LABELS[i], 10 + d))
                    builder = FileBuilderGlobalField(path, case['day'] + d, 'global', '1', 'tas', 'i', 'c', 'h', 's')
                    for variable in group:
                        builder.add_global_field(variable, numpy.ma.masked_array(numpy.full((1, 720, 1440), values[i] if variable.name == 'tas' else 1.0)))
                    builder.save_and_close()
                    paths[which].append(path)
            k += count
            expected.append((numpy.mean(values), 1.0 / numpy.sqrt(count), [LABELS[i] for i in range(count)]))
        merger = FilesMerger(paths['tas'], paths['ancillary'], numpy.array(case['counts'], numpy.int64), [variables['tas'][0]], [variables['tas'][1]], variables['ancillary'], [[0.0]])
        with redirect_stdout(io.StringIO()):
            merger.merge_outputs_from_multiple_daily_sources('m', 'i', 'c')
        names = sorted('%s_ocean_eustace_0_200207%02d.nc' % (which, 10 + d) for which in variables for d in range(len(case['counts'])))
        require(sorted(os.listdir(folder)) == names, 'files %s, expected %s', sorted(os.listdir(folder)), names)
        for d, (mean, spread, labels) in enumerate(expected):
            with netCDF4.Dataset(os.path.join(folder, 'tas_ocean_eustace_0_200207%02d.nc' % (10 + d))) as nc:
                require(float(nc.variables['time'][0]) == case['day'] + d, 'day %s of file %d', nc.variables['time'][0], d)
                require_close(numpy.unique(numpy.asarray(nc.variables['tas'][:])), [mean], 'temperature of day %d' % d, 0, 0.0026)
                require_close(numpy.unique(numpy.asarray(nc.variables['tasuncertainty'][:])), [spread], 'uncertainty of day %d' % d, 0, 0.00051)
                require(', '.join(labels) + ' retrievals.' in nc.comment, 'comment %r of day %d', nc.comment, d)
    return len(case['counts']) > 1
