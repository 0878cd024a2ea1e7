"""Cases: files described by any specification (attributes, dimensions, variables of any type and their attributes), conforming or
with up to three deviations of any kind, and the global field and station products with deviations from the specification
written down here; files from the project's own writers; files which are no NetCDF or not there. Oracle: the description of the
file compared with the specification. A case is non-trivial when the file has a deviation or is written by the project."""

import argparse
import io
import os
import shutil

import netCDF4
import numpy
from hypothesis import strategies as st
from harness import facet, require, scratch

from eustace.outputformats import definitions
from eustace.outputformats.globalfield_filebuilder import FileBuilderGlobalField
from eustace.outputformats.stationdata import StationDescription, StationDescriptionArray
from eustace.outputformats.stations import FileBuilderStationData
from eustace.outputformats.verify.specification import FileSpecification, VariableSpecification
from eustace.outputformats.verify.verify import Verifier
from eustace.outputformats.verify.verify_globalfield import VerifyGlobalField
from eustace.outputformats.verify.verify_stations import VerifyStationData

EPOCH = 'days since 1850-01-01T00:00:00Z'
TYPES = ['f4', 'f8', 'i1', 'i2', 'i4', 'u1', 'S1']
ATTRIBUTES = {'title': True, 'institution': True, 'source': True, 'history': True, 'Conventions': 'CF-1.6'}


def temperature(which, how):
    return ['i2', {'standard_name': 'air_temperature', 'long_name': which + ' daily surface air temperature', 'units': 'K', 'cell_methods': 'time: ' + how}]


def place(name, direction, axis):
    return ['f4', dict({'standard_name': name, 'long_name': name.capitalize() + ' (deg)', 'units': 'degrees_' + direction}, **({'axis': axis} if axis else {}))]


QC = ['u1', {'long_name': 'Quality control flags', 'standard_name': 'air_temperature status_flag', 'valid_range': None, 'flag_masks': None, 'flag_meanings': None}]
DETECTION = ['u1', {'long_name': 'Quality control flags for break detection', 'standard_name': 'air_temperature status_flag', 'valid_range': [0, 2], 'flag_values': [0, 1, 2], 'flag_meanings': 'not_possible possible_but_unreliable reliable'}]
PRODUCTS = {
    'global': {'attributes': ATTRIBUTES, 'dimensions': {'latitude': 720, 'longitude': 1440, 'time': None, 'bounds': 2}, 'variables': {
        'time': ['f4', {'standard_name': 'time', 'long_name': 'Time at zero longitude', 'units': EPOCH, 'calendar': 'gregorian', 'axis': 'T', 'bounds': 'timebounds', 'ancillary_variables': 'timeoffset'}],
        'timebounds': ['f4', {}], 'timeoffset': ['f4', {'long_name': 'Local time offset from UTC (days)', 'units': 'days'}],
        'latitude': place('latitude', 'north', 'Y'), 'longitude': place('longitude', 'east', 'X'),
        'tas': temperature('Average', 'mean'), 'tasmin': temperature('Minimum', 'minimum'), 'tasmax': temperature('Maximum', 'maximum')}},
    'temperature': {'attributes': ATTRIBUTES, 'dimensions': {'time': None}, 'variables': {
        'time': ['f4', {'standard_name': 'time', 'long_name': 'Time at zero longitude', 'units': EPOCH, 'calendar': 'gregorian'}],
        'latitude': place('latitude', 'north', None), 'longitude': place('longitude', 'east', None),
        'tasmin': temperature('Minimum', 'minimum'), 'tasmax': temperature('Maximum', 'maximum'),
        'station_name': ['S1', {'long_name': 'Station name', 'cf_role': 'timeseries_id'}],
        'elevation': ['f4', {'long_name': 'Height above the geoid (m)', 'standard_name': 'surface_altitude', 'units': 'm'}], 'tasmin_qc': QC, 'tasmax_qc': QC}},
    'status': {'attributes': ATTRIBUTES, 'dimensions': {'detection_time': None, 'tasmin_break': None, 'tasmax_break': None, 'bounds': 2}, 'variables': dict(
        [('detection_time', ['f4', {'standard_name': 'time', 'long_name': 'Start time of period for break detection status report (days)', 'units': EPOCH}])] +
        [(v + '_detection_qc', DETECTION) for v in ['tasmin', 'tasmax']] +
        [(v + '_break_station', ['i4', {'long_name': 'Index of station at which break was detected'}]) for v in ['tasmin', 'tasmax']] +
        [(v + '_break_amplitude', ['f4', {'long_name': 'Inhomogeneity in %simum surface air temperature' % v[3:], 'units': 'K'}]) for v in ['tasmin', 'tasmax']] +
        [(v + '_break_time_bounds', ['f4', {'long_name': 'Relative time bounds of break evaluation period (days)', 'units': 'days'}]) for v in ['tasmin', 'tasmax']] +
        [(v + '_break_time_affected_bounds', ['f4', {'long_name': 'Relative time bounds of period affected by break (days)', 'units': EPOCH}]) for v in ['tasmin', 'tasmax']])}}

names = st.sampled_from(['alpha', 'beta', 'gamma', 'Alpha', 'delta_1', 'time'])
words = st.sampled_from(['K', 'k', 'days', 'time: mean', 'time: mean ', '0', 'CF-1.6', 'CF-1.7'])
lists = st.lists(st.integers(0, 3), min_size=2, max_size=3)
values = st.one_of(words, words, lists)


@st.composite
def specifications(draw):
    return {'attributes': draw(st.dictionaries(names, st.one_of(st.just(True), words), max_size=4)), 'dimensions': draw(st.dictionaries(names, st.one_of(st.none(), st.integers(1, 5)), max_size=4)),
            'variables': draw(st.dictionaries(names, st.tuples(st.one_of(st.none(), st.sampled_from(TYPES)), st.dictionaries(names, st.one_of(st.none(), values), max_size=3)).map(list), min_size=1, max_size=4))}


DEVIATIONS = ['attribute', 'no_attribute', 'dimension', 'no_dimension', 'limited', 'type', 'no_variable', 'metadata', 'no_metadata', 'only_unknown', 'extra', 'rename']


@st.composite
def described(draw, specification, low=0):
    """a file that conforms, then changed in a number of ways"""
    filed = {'attributes': {k: (draw(words) if v is True else v) for k, v in specification['attributes'].items()}, 'dimensions': dict(specification['dimensions']),
             'variables': {k: [t or draw(st.sampled_from(TYPES)), {a: (draw(values) if v is None else v) for a, v in m.items()}] for k, (t, m) in specification['variables'].items()},
             'lengths': {k: draw(st.integers(0, 2)) for k, size in specification['dimensions'].items() if size is None}}
    for kind in draw(st.lists(st.sampled_from(DEVIATIONS), min_size=low, max_size=3)):
        pick = lambda mapping: draw(st.sampled_from(sorted(mapping)))
        if kind in ('attribute', 'no_attribute') and filed['attributes']:
            key = pick(filed['attributes'])
            filed['attributes'].pop(key)
            if kind == 'attribute':
                filed['attributes'][key] = draw(st.one_of(values, st.integers(0, 3)))
        elif kind in ('dimension', 'no_dimension', 'limited') and filed['dimensions']:
            key = pick(filed['dimensions'])
            size = filed['dimensions'].pop(key)
            if kind == 'dimension':
                filed['dimensions'][key] = (size or 1) + draw(st.sampled_from([1, 2, 700]))
            elif kind == 'limited':
                filed['dimensions'][key] = None if size is not None else draw(st.integers(1, 3))
                filed['lengths'][key] = size or 0
        elif kind == 'type':
            filed['variables'][pick(filed['variables'])][0] = draw(st.sampled_from(TYPES)) if filed['variables'] else None
        elif kind == 'no_variable' and len(filed['variables']) > 1:
            filed['variables'].pop(pick(filed['variables']))
        elif kind in ('metadata', 'no_metadata') and filed['variables']:
            variable = filed['variables'][pick(filed['variables'])]
            if variable[1]:
                key = pick(variable[1])
                old = variable[1].pop(key)
                if kind == 'metadata':
                    variable[1][key] = draw(st.one_of(values, st.integers(0, 3), st.just(old[:-1] if isinstance(old, list) else str(old) + 's'), st.just(str(old).upper())))
        elif kind == 'only_unknown':
            filed['variables'] = {'unknown': ['f4', {}]}
        elif kind == 'rename':
            key = pick(filed['variables'])
            filed['variables'][key + '2'] = filed['variables'].pop(key)
        elif kind == 'extra':
            filed['attributes']['extra'] = 'x'
            filed['dimensions']['extra'] = 4
            filed['variables']['extra'] = ['i4', {'extra': 'x'}]
    return filed


def write(path, filed):
    with netCDF4.Dataset(path, 'w') as nc:
        for key, value in filed['attributes'].items():
            nc.setncattr(key, numpy.array(value) if isinstance(value, list) else value)
        for key, size in filed['dimensions'].items():
            nc.createDimension(key, size)
            if size is None and filed['lengths'].get(key):
                # entries along dimension without limit
                nc.createVariable('along_' + key, 'i1', (key,))[:] = numpy.zeros(filed['lengths'][key])
        for key, (kind, metadata) in filed['variables'].items():
            variable = nc.createVariable(key, kind, ())
            for name, value in metadata.items():
                variable.setncattr(name, numpy.array(value, 'u1') if isinstance(value, list) else value)


def same(a, b):
    # an array of one number is read back as the number
    flat = lambda v: v[0] if isinstance(v, list) and len(v) == 1 else v
    return type(flat(a)) == type(flat(b)) and flat(a) == flat(b)


def conforms(filed, specification):
    for key, value in specification['attributes'].items():
        if key not in filed['attributes'] or (value is not True and not same(filed['attributes'][key], value)):
            return False
    for key, size in specification['dimensions'].items():
        if key not in filed['dimensions'] or filed['dimensions'][key] != size:
            return False
    if not set(specification['variables']) & set(filed['variables']):
        return False
    for key, (kind, metadata) in specification['variables'].items():
        if key in filed['variables']:
            found_kind, found = filed['variables'][key]
            if kind is not None and found_kind != kind:
                return False
            for name, value in metadata.items():
                if name not in found or (value is not None and not same(found[name], value)):
                    return False
    return True


@facet(specifications().flatmap(lambda s: st.fixed_dictionaries({'specification': st.just(s), 'file': described(s)})), quick=1200, thorough=20000, shards=3, cost=2)
def any_specification(case):
    """Any file and any specification"""
    specification = FileSpecification()
    specification.attributes, specification.dimensions = dict(case['specification']['attributes']), dict(case['specification']['dimensions'])
    for name, (kind, metadata) in case['specification']['variables'].items():
        variable = VariableSpecification(name, None if kind is None else numpy.dtype(kind))
        for key, value in metadata.items():
            variable.add_metadata(key, value)
        specification.variables.append(variable)

    class OneFile(Verifier):
        def check_all(self, args):
            self.check_file(args, specification, 'Open')

    expected = conforms(case['file'], case['specification'])
    with scratch() as folder:
        path = os.path.join(folder, 'a.nc')
        write(path, case['file'])
        verifier, stream = OneFile(), io.StringIO()
        result = verifier.run(path, stream)
    require(bool(result) == expected and bool(verifier.has_passed()) == expected, 'verification says %s, expected %s', result, expected)
    rows = [line for line in stream.getvalue().splitlines() if line.startswith('|')]
    require(any(row.rstrip('| ').endswith('Fail') for row in rows) == (not expected), 'table does not show the result: %s', rows)
    require(len(rows) == len(verifier.outcomes), '%d rows, %d outcomes', len(rows), len(verifier.outcomes))
    return not expected


@facet(st.sampled_from(['global', 'stations']).flatmap(lambda p: st.fixed_dictionaries({'product': st.just(p), 'files': st.fixed_dictionaries({k: described(PRODUCTS[k]) for k in (['global'] if p == 'global' else ['temperature', 'status'])}), 'missing': st.sampled_from([None] * 6 + ['one', 'text'])})), quick=800, thorough=12000, shards=3, cost=2)
def products(case):
    """The products of the project"""
    expected = case['missing'] is None and all(conforms(f, PRODUCTS[k]) for k, f in case['files'].items())
    with scratch() as folder:
        prefix = os.path.join(folder, 'x')
        paths = {k: prefix + '_%s.nc' % k for k in case['files']}
        for k, f in case['files'].items():
            write(paths[k], f)
        last = paths[sorted(paths)[-1]]
        if case['missing'] == 'one':
            os.remove(last)
        elif case['missing'] == 'text':
            with open(last, 'w') as f:
                f.write('CDF is not what this is')
        verifier, args = (VerifyGlobalField(), argparse.Namespace(pathname=paths['global'])) if case['product'] == 'global' else (VerifyStationData(), argparse.Namespace(pathnameprefix=prefix))
        result = verifier.run(args, io.StringIO())
    require(bool(result) == expected, 'verification says %s, expected %s; failing: %s', result, expected, [o.description for o in verifier.outcomes if not numpy.all(o.outcome)])
    return not expected


@facet(st.fixed_dictionaries({'variables': st.lists(st.sampled_from(['TAS', 'TASMIN', 'TASMAX', 'TASUNCERTAINTY']), min_size=1, max_size=4, unique=True), 'day': st.integers(0, 60000), 'stations': st.integers(1, 3), 'drop': st.sampled_from([None, 'units', 'long_name', 'standard_name'])}), quick=16, thorough=200, cost=10)
def written_files(case):
    """Files of the project's writers pass, and fail once changed"""
    values = numpy.ma.masked_all((1, 720, 1440))
    values[0, 3, 5] = 280.0
    with scratch() as folder:
        path = os.path.join(folder, 'a.nc')
        builder = FileBuilderGlobalField(path, case['day'], 'd', '1', 'tas', 'i', 'c', 'h', 's')
        for name in case['variables']:
            builder.add_global_field(getattr(definitions, name), values)
        builder.save_and_close()
        args = argparse.Namespace(pathname=path)
        verifier = VerifyGlobalField()
        require(verifier.run(args, io.StringIO()), 'global file does not pass: %s', [o.description for o in verifier.outcomes if not o.outcome])
        if case['drop']:
            changed = os.path.join(folder, 'b.nc')
            shutil.copyfile(path, changed)
            with netCDF4.Dataset(changed, 'a') as nc:
                nc.variables['latitude'].delncattr(case['drop'])
            require(not VerifyGlobalField().run(argparse.Namespace(pathname=changed), io.StringIO()), 'file without %s passes', case['drop'])
        stations = FileBuilderStationData(folder, 'Here', '2', 'i', 'c', 'h', 's')
        stations.set_temperature_dimensions(StationDescriptionArray([StationDescription('s%d' % i, 1.0, 2.0, 3.0) for i in range(case['stations'])]), numpy.array([float(case['day'])], numpy.float32))
        for variable in [definitions.TASMIN, definitions.TASMAX]:
            stations.add_temperature_variable(variable, numpy.full((1, case['stations']), 280.0))
        for variable in [definitions.TASMIN_QC, definitions.TASMAX_QC]:
            stations.add_temperature_variable(variable, numpy.zeros((1, case['stations'])))
        for name in ['detection_time', 'tasmin_break', 'tasmax_break']:
            stations.add_status_dimension(name)
        stations.add_status_variable('detection_time', definitions.DETECTION_TIME, numpy.array([float(case['day'])], numpy.float32))
        for variable in [definitions.TASMIN_DETECTION_QC, definitions.TASMAX_DETECTION_QC]:
            stations.add_status_variable('detection_time', variable, numpy.array([1], numpy.uint8))
        for which in ['TASMIN', 'TASMAX']:
            stations.add_status_variable(which.lower() + '_break', getattr(definitions, which + '_BREAK_STATION'), numpy.array([0], numpy.int32))
            stations.add_status_variable(which.lower() + '_break', getattr(definitions, which + '_BREAK_AMPLITUDE'), numpy.array([1.5], numpy.float32))
            for suffix in ['_BREAK_TIME_BOUNDS', '_BREAK_TIME_AFFECTED_BOUNDS']:
                stations.add_status_variable(which.lower() + '_break', getattr(definitions, which + suffix), numpy.array([[1.0, 2.0]], numpy.float32), bounds=True)
        stations.save_and_close()
        args = argparse.Namespace(pathnameprefix=os.path.join(folder, 'eustace_stations_here_2'))
        verifier = VerifyStationData()
        require(verifier.run(args, io.StringIO()), 'station files do not pass: %s', [o.description for o in verifier.outcomes if not o.outcome])
        require(not VerifyStationData().run(argparse.Namespace(pathnameprefix=os.path.join(folder, 'other')), io.StringIO()), 'files that are not there pass')
    return True
