"""Cases: results of the land and ocean models on a grid of 6 by 12 cells (the shape of global fields is set to this before the
code is loaded) for one to three days from 1850 on, packed as the models pack them or not, any cells missing (none, some, all; in
temperatures and uncertainties alike or in one of the extremes only), any values that the output format can hold, minimum above
maximum in some cells; run for single days, for lists of days and from the command line, with a stand-in for the IDL program
which keeps the configuration it was given and hands out the generated results, or fails. Also files of single sources and
pairs of hemispheres, and written output read again as observations. Oracle: the values given, in Kelvin, with uncertainties
combined as the root of the sum of squares, to the resolution of the output format. A case is non-trivial when some cells are
missing and others are not, or more than one file is involved."""

import contextlib
import io
import json
import math
import os
import stat
import sys

import netCDF4
import numpy
from hypothesis import strategies as st
from harness import facet, require, require_close, raises, scratch

from eumopps.version.svn import set_allow_unversioned_code
from eustace.outputformats import definitions

set_allow_unversioned_code(True)

NY, NX = 6, 12
definitions.GLOBAL_FIELD_SHAPE = (1, NY, NX)
definitions.GLOBAL_FIELD_RESOLUTION = 30.0

from eustace.analysis.observationsource import ObservationSource
from eustace.surfaceairmodel import run_land, run_ocean
from eustace.surfaceairmodel.fileio.consistent import ConsistentModelOutputNetCDF, DatasetAttributesConsistentModelOutput, ObservationSourceSatstace
from eustace.surfaceairmodel.fileio.ice import ObservationSourceIceDMI, ObservationSourceIceDMICombined
from eustace.surfaceairmodel.fileio.land import ObservationSourceLandMetOfficeWP1
from eustace.surfaceairmodel.fileio.ocean import ObservationSourceOceanMetOfficeWP1

IDL = '''#!%s -IS
import json, os, shutil, sys
config = json.load(open(sys.argv[sys.argv.index('-args') + 1]))
folder = os.environ['VERIF_IDL']
with open(os.path.join(folder, 'calls'), 'a') as f:
    f.write(json.dumps([sys.argv[1:], config]) + '\\n')
fail = open(os.path.join(folder, 'fail')).read() if os.path.exists(os.path.join(folder, 'fail')) else ''
if fail == 'exit':
    sys.exit(3)
if fail == 'kill':
    os.kill(os.getpid(), 9)
for day in config['data']:
    if 'filename_input_lst' in day:
        shutil.copyfile(day['filename_input_lst'][0] + '.result', os.path.join(day['dir_output'], day['filename_output_id']))
    else:
        shutil.copyfile(day['filename_input'] + '.result', day['filename_output'])
if fail == 'late':
    sys.exit(1)
''' % sys.executable


@contextlib.contextmanager
def idl(folder):
    """a stand-in for the IDL program, found on the path"""
    where = os.path.join(folder, 'bin')
    os.mkdir(where)
    program = os.path.join(where, 'idl')
    with open(program, 'w') as f:
        f.write(IDL)
    os.chmod(program, stat.S_IRWXU)
    kept = dict(os.environ)
    os.environ['PATH'] = where + os.pathsep + os.environ['PATH']
    os.environ['VERIF_IDL'] = folder
    try:
        yield
    finally:
        os.environ.clear()
        os.environ.update(kept)


def calls(folder):
    with open(os.path.join(folder, 'calls')) as f:
        return [json.loads(line) for line in f]


UNITS = ['days since 1850-1-1 0:0:0', 'days since 1850-01-01', 'hours since 1850-01-01 00:00:00', 'seconds since 1981-01-01 00:00:00', 'days since 1970-01-01']
EPOCHS = {'1850': 0, '1981': 47847, '1970': 43829}


def set_time(dataset, day, fraction, units, dimension):
    origin = [v for k, v in EPOCHS.items() if k in units][0]
    number = (day + fraction - origin) * {'days': 1, 'hours': 24, 'seconds': 86400}[units.split()[0]]
    v = dataset.createVariable('time', 'f8' if fraction or 'days' not in units else 'i4', (dimension,))
    v.units = units
    v.standard_name = 'time'
    v[:] = [round(number)] if v.dtype.kind == 'i' else [number]


def set_field(dataset, name, values, missing, dimensions, packed, scale, offset, kind='i2'):
    """a field in a file; gives the values as stored"""
    if packed == 'packed' or kind == 'number':
        v = dataset.createVariable(name, 'i2', dimensions, fill_value=numpy.int16(-32768 if kind == 'i2' else 0))
        v.set_auto_maskandscale(False)
        if kind == 'i2':
            v.scale_factor, v.add_offset = scale, offset
            raw = numpy.round((values - offset) / scale)
            stored = raw * scale + offset
        else:
            raw, stored = values, values
        raw = numpy.where(missing, v._FillValue, raw).astype('i2')
    else:
        v = dataset.createVariable(name, packed, dimensions, fill_value=numpy.dtype(packed).type(-999.0) if packed == 'f8' else None)
        raw = numpy.where(missing, v._FillValue if packed == 'f8' else netCDF4.default_fillvals[packed], values).astype(packed)
        v.set_auto_maskandscale(False)
        stored = raw.astype('f8')
    v[:] = raw.reshape([1 if d in ('time', 't') else values.shape[0 if d in ('lat', 'y') else 1] for d in dimensions])
    return numpy.ma.masked_array(stored, numpy.array(missing))


LAND = [which + part for part in ['tasmin', 'tasmax'] for which in ['unc_rand_', 'unc_corr_atm_', 'unc_corr_sfc_', 'unc_sys_']]
LAND_NEW = [part + which for part in ['tasmin', 'tasmax'] for which in ['_unc_rand', '_unc_corr_atm', '_unc_corr_sfc', '_unc_sys']]
OCEAN = ['unc_rand_tas', 'unc_corr_tas', 'unc_syst_tas', 'unc_corr2_tas', 'unc_syst2_tas'] + ['unc_parameter_%d_tas' % k for k in range(5)]
OCEAN_NEW = ['tas_unc_rand', 'tas_unc_corr_sat', 'tas_unc_sys', 'tas_unc_corr_mod', 'tas_unc_sys_mod'] + ['tas_unc_parameter_%d' % k for k in range(5)]
SCALES = {'tas_unc_corr_sat': (100.0, 1.0), 'tas_unc_corr_mod': (1000.0, 3.0), 'tasmin_unc_corr_sfc': ('unknown', 30.0), 'tasmax_unc_corr_sfc': ('unknown', 30.0), 'tasmin_unc_corr_atm': ('unknown', 'unknown'), 'tasmax_unc_corr_atm': ('unknown', 'unknown')}


def holes(r, how, shape=(NY, NX)):
    return {'none': numpy.zeros(shape, bool), 'all': numpy.ones(shape, bool), 'some': r.rand(*shape) < 0.4, 'one': numpy.arange(numpy.prod(shape)).reshape(shape) == r.randint(numpy.prod(shape)), 'most': r.rand(*shape) < 0.9}[how]


def temperatures(r, low=150.0, high=400.0, shape=(NY, NX)):
    return r.choice([r.uniform(low, high, shape), r.uniform(-20, 20, shape) + 270.0][::1 if r.rand() < 0.5 else -1][0].ravel(), shape, replace=True)


def uncertainties(r, count, shape=(NY, NX)):
    # of which the total stays within what the output can hold (32.767)
    largest = min(15.0, 30.0 / math.sqrt(count))
    return [r.choice([0.0, 0.001, 0.1, 1.0, largest]) * r.rand(*shape) + r.choice([0.0, 0.1]) for _ in range(count)]


def land_file(name, day, r):
    """the result of the land model for a day; gives the contents"""
    contents = {}
    both = holes(r, day['missing'])
    only = {'tasmin': holes(r, day['minimum']), 'tasmax': holes(r, day['maximum'])} if day['apart'] else {}
    low = temperatures(r)
    spread = r.uniform(0, 10, (NY, NX)) * r.choice([1.0, 0.0, -1.0], (NY, NX), p=[0.8, 0.1, 0.1] if day['crossed'] else [0.9, 0.1, 0.0])
    with netCDF4.Dataset(name, 'w', format='NETCDF4') as f:
        f.createDimension('lon', NX)
        f.createDimension('lat', NY)
        f.createDimension('time', None)
        set_time(f, day['day'], 0, UNITS[day['units']], 'time')
        axis(f, 'lat', 'latitude', numpy.linspace(-75, 75, NY))
        axis(f, 'lon', 'longitude', numpy.linspace(-165, 165, NX))
        dimensions = ('lat', 'lon', 'time')
        for extreme, values in [('tasmin', low), ('tasmax', low + spread)]:
            missing = both | only.get(extreme, False)
            contents[extreme] = set_field(f, extreme, values, missing, dimensions, day['packed'], 0.005, 273.15)
            parts = uncertainties(r, 4)
            for which, values in zip(['unc_rand_', 'unc_corr_atm_', 'unc_corr_sfc_', 'unc_sys_'], parts):
                contents[which + extreme] = set_field(f, which + extreme, values, missing, dimensions, day['packed'], 0.001, 32.767)
            number = r.randint(1, 4, (NY, NX))
            contents[extreme + '_model_number'] = set_field(f, extreme + '_model_number', number, missing, dimensions, day['packed'], 1, 0, 'number')
    return contents


def axis(f, name, standard, values, kind='f4'):
    v = f.createVariable(name, kind, (name,))
    v.standard_name = standard
    v.units = {'latitude': 'degrees_north', 'longitude': 'degrees_east'}[standard]
    v[:] = values


def ocean_file(name, day, r):
    contents = {}
    missing = holes(r, day['missing'])
    with netCDF4.Dataset(name, 'w', format='NETCDF4') as f:
        f.createDimension('x', NX)
        f.createDimension('y', NY)
        f.createDimension('t', 1)
        set_time(f, day['day'], 0.5, UNITS[day['units']], 't')
        for short, standard, dimension, count, values in [('latitude', 'latitude', 'y', NY, numpy.linspace(-75, 75, NY)), ('longitude', 'longitude', 'x', NX, numpy.linspace(-165, 165, NX))]:
            v = f.createVariable(short, 'f4', (dimension,))
            v[:] = values
        contents['tas'] = set_field(f, 'tas', temperatures(r) - 273.15, missing, ('y', 'x'), day['packed'], 0.1 if r.rand() < 0.5 else 0.01, 0.0)
        for old, values in zip(OCEAN, uncertainties(r, 10)):
            contents[old] = set_field(f, old, values, missing, ('y', 'x'), day['packed'], 0.001, 32.767 if day['packed'] == 'packed' else 0.0)
    return contents


def check_output(name, day, expected, institution, others=()):
    """a file of output against the fields expected"""
    with netCDF4.Dataset(name) as f:
        require(int(f.variables['time'][0]) == day, '%s is for day %s', name, f.variables['time'][:])
        require(f.institution == institution, 'institution %s', f.institution)
        for variable, field in expected.items():
            require(variable in f.variables, 'no %s in the output', variable)
            v = f.variables[variable]
            found = v[:]
            require(found.shape == (1, NY, NX), '%s has shape %s', variable, found.shape)
            require_close(numpy.ma.getmaskarray(found)[0], numpy.ma.getmaskarray(field), 'missing values of %s' % variable, 0, 0)
            known = ~numpy.ma.getmaskarray(field)
            resolution = {'n': 0, 'u': 0.0011, 't': 0.0055}['n' if 'number' in variable else 'u' if 'unc' in variable else 't']
            require_close(numpy.ma.getdata(found)[0][known], numpy.ma.getdata(field)[known], variable, 2e-6, resolution)
            if variable in SCALES:
                require((v.length_scale, v.time_scale, v.length_scale_units, v.time_scale_units) == SCALES[variable] + ('km', 'day'), 'correlation ranges of %s', variable)
        surplus = set(f.variables) - set(expected) - {'time', 'timebounds', 'time_bounds', 'latitude', 'longitude', 'timeoffset', 'time_offset'}
        require(not surplus, 'unexpected variables %s', surplus)
        return f.comment


def total(parts):
    mask = numpy.logical_or.reduce([numpy.ma.getmaskarray(p) for p in parts])
    return numpy.ma.masked_array(numpy.sqrt(sum(numpy.ma.getdata(p) ** 2 for p in parts)), mask)


days = st.fixed_dictionaries({
    'day': st.one_of(st.integers(0, 61000), st.integers(0, 61000), st.sampled_from([0, 57380, 59229, 60323])),
    'units': st.integers(0, len(UNITS) - 1), 'seed': st.integers(0, 2 ** 31), 'packed': st.sampled_from(['packed', 'packed', 'f4', 'f8']),
    'missing': st.sampled_from(['some', 'none', 'one', 'all', 'most']), 'apart': st.booleans(), 'minimum': st.sampled_from(['one', 'none', 'some']), 'maximum': st.sampled_from(['one', 'none', 'some']), 'crossed': st.booleans()})

runs = st.fixed_dictionaries({'days': st.lists(days, min_size=1, max_size=3), 'how': st.sampled_from(['day', 'several', 'command']), 'fail': st.sampled_from([''] * 9 + ['exit', 'kill', 'late']), 'snow': st.tuples(st.booleans(), st.booleans(), st.booleans()), 'thresholds': st.tuples(st.floats(0, 1), st.floats(0, 10))})


def date(day):
    d = numpy.datetime64('1850-01-01') + int(day)
    y, m, k = str(d).split('-')
    return {'year': int(y), 'month': int(m), 'day': int(k)}


def quiet(f, *args, **kwargs):
    with contextlib.redirect_stdout(io.StringIO()), contextlib.redirect_stderr(io.StringIO()):
        return f(*args, **kwargs)


def command(main, options):
    kept = sys.argv
    sys.argv = ['program'] + [text for k, v in options.items() for text in ('--' + k, str(v))]
    try:
        quiet(main)
    except SystemExit as e:
        require(not e.code, 'the command line %s ends with %s', sys.argv, e.code)
    finally:
        sys.argv = kept


@facet(runs, quick=110, thorough=1500, cost=4, shards=4)
def land(case):
    """Output of the land model"""
    with scratch() as folder, idl(folder):
        folder = os.path.abspath(str(folder))
        if case['fail']:
            with open(os.path.join(folder, 'fail'), 'w') as f:
                f.write(case['fail'])
        given = case['days'] if case['how'] == 'several' else case['days'][:1]
        inputs, contents = [], []
        for n, day in enumerate(given):
            d = date(day['day'])
            where = os.path.join(folder, 'in%d' % n)
            os.mkdir(where)
            satellite = [os.path.join(where, 'satgrid.%s.%04d%02d%02d.nc' % (w, d['year'], d['month'], d['day'])) for w in ['day', 'night']]
            contents.append(land_file(satellite[0] + '.result', day, numpy.random.RandomState(day['seed'])))
            inputs.append((satellite, os.path.join(where, 'snow.nc') if case['snow'][len(inputs)] or case['how'] != 'several' else None))
        outputs = [(os.path.join(folder, 'out', 'tas%d.nc' % n), os.path.join(folder, 'out', 'more%d.nc' % n)) for n in range(len(given))]
        fraction, sampling = case['thresholds']
        def arguments(n):
            (first, second), snow = inputs[n]
            return ('catalogue', 'Somewhere') + outputs[n] + ('m1', 'm2', 'm3', first, second, snow, 'north', 'south', 'height', 'plants', fraction, sampling)
        def run():
            if case['how'] == 'day':
                quiet(run_land.run_day, *arguments(0))
            elif case['how'] == 'several':
                quiet(run_land.run_multiple_days, [run_land.return_daily_inputs(*arguments(n)) for n in range(len(given))])
            else:
                command(run_land.main, {'institution': 'Somewhere', 'output_main': outputs[0][0], 'output_ancillary': outputs[0][1], 'input_model1_parameters': 'm1', 'input_model2_parameters': 'm2', 'input_model3_parameters': 'm3',
                                        'inputfvc': 'plants', 'inputDEM': 'height', 'inputmasknord': 'north', 'inputmasksouth': 'south', 'inputsnow': inputs[0][1], 'inputday': inputs[0][0][0], 'inputnight': inputs[0][0][1],
                                        'frac_sat_obs_threshold': fraction, 'sampling_threshold': sampling})
        if case['fail']:
            require(raises(ValueError, run), 'failure of the model is not reported')
            require(not any(os.path.exists(name) for pair in outputs for name in pair), 'output though the model failed')
            return False
        run()
        made = calls(folder)
        require(len(made) == 1 and made[0][0][:3] == ['-e', '.run model_land_idl.pro', '-args'], 'program called as %s', made)
        require(made[0][1]['model'] == {'filename_model_clim_parameters': ['m1', 'm2', 'm3'], 'frac_sat_obs_threshold': fraction, 'sampling_threshold': sampling}, 'model configured as %s', made[0][1]['model'])
        require(len(made[0][1]['data']) == len(given), 'days configured')
        nontrivial = len(given) > 1
        for n, day in enumerate(given):
            told = made[0][1]['data'][n]
            told = {k: v for k, v in told.items() if k not in ('dir_output', 'filename_output_id')}
            require(told == {'date': date(day['day']), 'dir_input_fvc': 'plants', 'filename_input_dem': 'height', 'filename_input_mask': ['north', 'south'], 'filename_input_snow': inputs[n][1] or 'MISSING', 'filename_input_lst': inputs[n][0]}, 'day configured as %s', told)
            c = contents[n]
            crossed = numpy.asarray((c['tasmin'] > c['tasmax']).filled(False))
            expected = {}
            for extreme in ['tasmin', 'tasmax']:
                expected[extreme] = c[extreme]
                expected[extreme + 'uncertainty'] = total([c[w + extreme] for w in ['unc_rand_', 'unc_corr_atm_', 'unc_corr_sfc_', 'unc_sys_']])
            more = {new: c[old] for new, old in zip(LAND_NEW + ['tasmin_model_number', 'tasmax_model_number'], LAND + ['tasmin_model_number', 'tasmax_model_number'])}
            for group in [expected, more]:
                for name in group:
                    group[name] = numpy.ma.masked_array(numpy.ma.getdata(group[name]), numpy.ma.getmaskarray(group[name]) | crossed)
            comment = check_output(outputs[n][0], day['day'], expected, 'Somewhere')
            require(str(int(crossed.sum())) in comment.replace('%', ' ').split() and 'Percentage' not in comment, 'comment "%s" for %d cells removed', comment, crossed.sum())
            check_output(outputs[n][1], day['day'], more, 'Somewhere')
            missing = numpy.ma.getmaskarray(expected['tasmin'])
            nontrivial = nontrivial or (missing.any() and not missing.all())
        return nontrivial


@facet(st.tuples(days, days), quick=80, thorough=600)
def mismatched(pair):
    """Day and night files of different days are refused"""
    names = ['/somewhere/v20010203/%s.%04d%02d%02d.nc' % ((w,) + tuple(date(d['day'])[k] for k in ('year', 'month', 'day'))) for w, d in zip(['day', 'night'], pair)]
    model = run_land.ModelLand(['a', 'b', 'c'], 0.2, 3.0)
    make = lambda: model.build_config_dictionary([['out/', 'x.nc']], [['fvc', 'dem', ['n', 's'], 'snow', names]])
    if pair[0]['day'] == pair[1]['day']:
        require(make()['data'][0]['date'] == date(pair[0]['day']), 'date')
    else:
        require(raises(ValueError, make), 'files %s are taken for the same day', names)
    return True


@facet(runs, quick=110, thorough=1500, cost=4, shards=4)
def ocean(case):
    """Output of the ocean model"""
    with scratch() as folder, idl(folder):
        folder = os.path.abspath(str(folder))
        if case['fail']:
            with open(os.path.join(folder, 'fail'), 'w') as f:
                f.write(case['fail'])
        given = case['days'] if case['how'] == 'several' else case['days'][:1]
        inputs, contents = [], []
        for n, day in enumerate(given):
            name = os.path.join(folder, 'ocean%d.nc' % n)
            contents.append(ocean_file(name + '.result', day, numpy.random.RandomState(day['seed'])))
            with netCDF4.Dataset(name, 'w') as f:
                f.createDimension('t', 1)
                set_time(f, day['day'], 0.5, UNITS[day['units']], 't')
            inputs.append(name)
        outputs = [(os.path.join(folder, 'out', 'tas%d.nc' % n), os.path.join(folder, 'out', 'more%d.nc' % n)) for n in range(len(given))]
        def arguments(n):
            return ('catalogue', 'Elsewhere') + outputs[n] + ('parameters', 'uncertainty', 'stdev', inputs[n])
        def run():
            if case['how'] == 'day':
                quiet(run_ocean.run_day, *arguments(0))
            elif case['how'] == 'several':
                quiet(run_ocean.run_multiple_days, [run_ocean.return_daily_inputs(*arguments(n)) for n in range(len(given))])
            else:
                command(run_ocean.main, {'institution': 'Elsewhere', 'output_main': outputs[0][0], 'output_ancillary': outputs[0][1], 'input_model_parameters': 'parameters', 'input_model_uncertainty': 'uncertainty', 'input_model_stdev': 'stdev', 'input_satellite_ocean': inputs[0]})
        if case['fail']:
            require(raises(ValueError, run), 'failure of the model is not reported')
            require(not any(os.path.exists(name) for pair in outputs for name in pair), 'output though the model failed')
            return False
        run()
        made = calls(folder)
        require(len(made) == 1 and made[0][0][:3] == ['-e', '.run model_ocean_idl.pro', '-args'], 'program called as %s', made)
        require(made[0][1]['model'] == {'filename_parameters': 'parameters', 'filename_uncertainty': 'uncertainty', 'filename_stdev': 'stdev'}, 'model configured as %s', made[0][1]['model'])
        require([(d['date'], d['filename_input']) for d in made[0][1]['data']] == [(date(day['day']), name) for day, name in zip(given, inputs)], 'days configured as %s', made[0][1]['data'])
        nontrivial = len(given) > 1
        for n, day in enumerate(given):
            c = contents[n]
            check_output(outputs[n][0], day['day'], {'tas': c['tas'] + 273.15, 'tasuncertainty': total([c[k] for k in OCEAN])}, 'Elsewhere')
            check_output(outputs[n][1], day['day'], {new: c[old] for new, old in zip(OCEAN_NEW, OCEAN)}, 'Elsewhere')
            nontrivial = nontrivial or 0 < numpy.ma.getmaskarray(c['tas']).sum() < NY * NX
        return nontrivial


def check_observations(found, time, mask, values, random, correlated, location=None):
    count = mask.size
    require(found.number_of_observations() == count, 'number of observations')
    require_close(float(numpy.asarray(found.time)), time, 'time', 0, 1e-6 * max(1.0, abs(time)))
    require_close(numpy.asarray(found.location, float), numpy.arange(count) if location is None else location, 'location', 0, 0)
    require(found.mask.shape == (count,), 'mask has shape %s', found.mask.shape)
    require_close(found.mask, mask.ravel(), 'mask', 0, 0)
    known = ~mask.ravel()
    for what, actual, expected in [('measurement', found.measurement, values), ('uncorrelated uncertainty', found.uncorrelatederror, random)] + [('correlated uncertainty', a, e) for a, e in zip(found.locallycorrelatederror, correlated)]:
        require(numpy.shape(actual) == (count,), '%s has shape %s', what, numpy.shape(actual))
        require_close(numpy.asarray(actual, float)[known], numpy.asarray(expected, float).ravel()[known], what, 1e-5, 2e-5 if what != 'measurement' else 1e-4)
    require(len(found.locallycorrelatederror) == len(correlated), 'components of correlated uncertainty')


def plain(field):
    return numpy.ma.getdata(field), numpy.ma.getmaskarray(field)


@facet(st.fixed_dictionaries({'day': days, 'which': st.lists(st.sampled_from(['Tmean', 'Tmin', 'Tmax']), min_size=1, max_size=3, unique=True), 'masks': st.lists(st.sampled_from(['some', 'none', 'one', 'all', 'most']), min_size=3, max_size=3), 'three': st.booleans()}), quick=120, thorough=1500, cost=2, shards=2)
def again(case):
    """Output read again as observations"""
    r = numpy.random.RandomState(case['day']['seed'])
    names = {'Tmean': 'tas', 'Tmin': 'tasmin', 'Tmax': 'tasmax'}
    results = {'daynumber': case['day']['day']}
    kept = {}
    for k, which in enumerate(case['which']):
        missing = holes(r, case['masks'][k])
        pair = [numpy.round(temperatures(r) * 200) / 200 - 0.0, numpy.round(uncertainties(r, 1)[0], 3)]
        kept[which] = pair + [missing]
        for name, values in zip([names[which], names[which] + 'uncertainty'], pair):
            field = numpy.ma.masked_array(values.copy(), missing if missing.any() else numpy.ma.nomask)
            results[name] = field[numpy.newaxis] if case['three'] else field
    with scratch() as folder:
        name = os.path.join(str(folder), 'tas.nc')
        writer = ConsistentModelOutputNetCDF(DatasetAttributesConsistentModelOutput('module', 'place', '1'), [])
        writer.write_primary(name, results)
        source = ObservationSourceSatstace(list(case['which']), name)
        require(sorted(source.observables()) == sorted(case['which']), 'observables')
        require(source.number_of_observations() == NY * NX, 'number of observations')
        y, x = numpy.meshgrid(numpy.linspace(-75, 75, NY), numpy.linspace(-165, 165, NX), indexing='ij')
        require_close(source.observation_location_lookup(), numpy.vstack([y.ravel(), x.ravel()]), 'location', 0, 1e-4)
        for which, (values, uncertainty, missing) in kept.items():
            found = source.observations(which)
            require_close(found.mask, missing.ravel(), 'mask', 0, 0)
            known = ~missing.ravel()
            require_close(float(found.time), case['day']['day'], 'time', 0, 0)
            require_close(numpy.asarray(found.location, float), numpy.arange(NY * NX), 'location', 0, 0)
            require_close(found.measurement[known], values.ravel()[known], which, 0, 0.003)
            require_close(found.uncorrelatederror[known], uncertainty.ravel()[known], 'uncertainty of ' + which, 0, 0.0006)
            require(len(found.locallycorrelatederror) == 0 and list(source.local_correlation_length_scale(which)) == [], 'correlated uncertainty')
    return len(case['which']) > 1


@facet(days, quick=100, thorough=1200, cost=2, shards=2)
def old_land(day):
    """Land files as observations"""
    r = numpy.random.RandomState(day['seed'])
    missing = {e: holes(r, day['missing']) for e in ['tasmin', 'tasmax']}
    if not day['apart']:
        missing['tasmax'] = missing['tasmin']
    c = {}
    with scratch() as folder:
        name = os.path.join(str(folder), 'land.nc')
        with netCDF4.Dataset(name, 'w') as f:
            f.createDimension('lon', NX)
            f.createDimension('lat', NY)
            f.createDimension('time', None)
            set_time(f, day['day'], 0, UNITS[0], 'time')
            axis(f, 'lat', 'latitude', numpy.linspace(-75, 75, NY))
            axis(f, 'lon', 'longitude', numpy.linspace(-165, 165, NX))
            for e in ['tasmin', 'tasmax']:
                c[e] = set_field(f, e, temperatures(r), missing[e], ('lat', 'lon', 'time'), day['packed'], 0.005, 273.15)
                for which, values in zip(['unc_rand_', 'unc_corr_'], uncertainties(r, 2)):
                    c[which + e] = set_field(f, which + e, values, missing[e], ('lat', 'lon', 'time'), day['packed'], 0.001, 32.767)
        source = ObservationSourceLandMetOfficeWP1(name)
        require(sorted(source.observables()) == ['Tmax', 'Tmean', 'Tmin'], 'observables')
        y, x = numpy.meshgrid(numpy.linspace(-75, 75, NY), numpy.linspace(-165, 165, NX), indexing='ij')
        require_close(source.observation_location_lookup(), numpy.vstack([y.ravel(), x.ravel()]), 'location', 0, 1e-4)
        for which, e in [('Tmin', 'tasmin'), ('Tmax', 'tasmax')]:
            check_observations(source.observations(which), day['day'], missing[e], plain(c[e])[0], plain(c['unc_rand_' + e])[0], [plain(c['unc_corr_' + e])[0]])
        either = missing['tasmin'] | missing['tasmax']
        mean = 0.5 * (plain(c['tasmin'])[0] + plain(c['tasmax'])[0])
        rms = [numpy.sqrt(0.5 * (plain(c[w + 'tasmin'])[0] ** 2 + plain(c[w + 'tasmax'])[0] ** 2)) for w in ['unc_rand_', 'unc_corr_']]
        check_observations(source.observations('Tmean'), day['day'], either, mean, rms[0], [rms[1]])
        require(list(source.local_correlation_length_scale('Tmean')) == list(source.local_correlation_length_scale('Tmin')) == [1.0], 'length scale')
    return 0 < either.sum() < either.size


@facet(days, quick=100, thorough=1200, cost=2, shards=2)
def old_ocean(day):
    """Ocean files as observations"""
    with scratch() as folder:
        name = os.path.join(str(folder), 'ocean.nc')
        c = ocean_file(name, dict(day, units=1), numpy.random.RandomState(day['seed']))
        source = ObservationSourceOceanMetOfficeWP1(name)
        require(list(source.observables()) == ['Tmean'], 'observables')
        values, missing = plain(c['tas'])
        y, x = numpy.meshgrid(numpy.linspace(-75, 75, NY), numpy.linspace(-165, 165, NX), indexing='ij')
        require_close(source.observation_location_lookup(), numpy.vstack([y.ravel(), x.ravel()]), 'location', 0, 1e-4)
        for _ in range(2):
            check_observations(source.observations('Tmean'), day['day'] + 0.5, missing, values + 273.15, plain(c['unc_rand_tas'])[0], [plain(c['unc_corr_tas'])[0]])
        require(list(source.local_correlation_length_scale('Tmean')) == [100000.0], 'length scale')
    return 0 < missing.sum() < missing.size


@st.composite
def hemispheres(draw):
    step = draw(st.sampled_from([0.25, 0.5, 1.0, 0.1]))
    south = draw(st.integers(2, 5))
    north = draw(st.integers(2, 5))
    gap = draw(st.integers(1, 6))
    return {'step': step, 'south': south, 'north': north, 'gap': gap, 'columns': draw(st.integers(2, 6)), 'day': draw(days), 'missing': [draw(st.sampled_from(['some', 'none', 'one', 'all'])) for _ in range(2)], 'wrong': draw(st.sampled_from([None] * 8 + ['order', 'longitude', 'step', 'direction', 'day', 'number'])), 'first': draw(st.integers(-80, -20))}


@facet(hemispheres(), quick=160, thorough=2000, cost=2, shards=3)
def hemisphere(case):
    """Files of two hemispheres as one source"""
    day, step = case['day'], case['step']
    r = numpy.random.RandomState(day['seed'])
    kind = 'f8' if step == 0.1 else ['f4', 'f8'][day['seed'] % 2]
    first = case['first'] + step * numpy.arange(case['south'])
    second = case['first'] + step * (case['south'] - 1 + case['gap'] + numpy.arange(case['north']))
    longitudes = -179.5 + numpy.arange(case['columns'])
    contents = []
    with scratch() as folder:
        names = [os.path.join(str(folder), n) for n in ['south.nc', 'north.nc']]
        for k, (name, latitudes) in enumerate(zip(names, [first, second])):
            columns = longitudes
            if case['wrong'] == 'longitude' and k == 1:
                columns = longitudes + 0.5
            if case['wrong'] == 'step' and k == 1:
                latitudes = latitudes[0] + 2 * (latitudes - latitudes[0])
            if case['wrong'] == 'direction':
                latitudes = latitudes[::-1]
            shape = (len(latitudes), len(columns))
            c = {}
            with netCDF4.Dataset(name, 'w') as f:
                f.createDimension('lon', shape[1])
                f.createDimension('lat', shape[0])
                f.createDimension('time', None)
                set_time(f, day['day'] + (k if case['wrong'] == 'day' else 0), 0, UNITS[0], 'time')
                axis(f, 'lat', 'latitude', latitudes, kind)
                axis(f, 'lon', 'longitude', columns, kind)
                for e in ['', 'min', 'max']:
                    missing = holes(r, case['missing'][k], shape)
                    c['tas' + e] = set_field(f, 'tas' + e, temperatures(r, shape=shape), missing, ('time', 'lat', 'lon'), day['packed'], 0.005, 273.15)
                    for which, values in zip(['RU', 'SSU'], uncertainties(r, 2, shape)):
                        c[which + e] = set_field(f, which + e, values, missing, ('time', 'lat', 'lon'), day['packed'], 0.001, 32.767)
            contents.append(c)
        wrong = case['wrong']
        if wrong == 'number':
            require(raises(ValueError, ObservationSourceIceDMICombined, names[:1]), 'a single file is accepted')
            require(raises(ValueError, ObservationSourceIceDMICombined, names + names[:1]), 'three files are accepted')
            return True
        if wrong in ('order', 'longitude', 'step', 'direction'):
            require(raises(ValueError, ObservationSourceIceDMICombined, names[::-1] if wrong == 'order' else names), 'files with wrong %s are accepted', wrong)
            return True
        source = ObservationSourceIceDMICombined(names)
        if wrong == 'day':
            require(raises(ValueError, source.observations, 'Tmean'), 'files of different days are accepted')
            return True
        require(sorted(source.observables()) == ['Tmax', 'Tmean', 'Tmin'], 'observables')
        require(source.number_of_observations() == (case['south'] + case['north']) * case['columns'], 'number of observations')
        lookup = source.observation_location_lookup()
        single = [ObservationSourceIceDMI(n) for n in names]
        for which, e in [('Tmean', ''), ('Tmin', 'min'), ('Tmax', 'max')]:
            fields = [{n: plain(c[n + e]) for n in ['tas', 'RU', 'SSU']} for c in contents]
            y, x = numpy.meshgrid(numpy.concatenate([first, second]), longitudes, indexing='ij')
            found = source.observations(which)
            mask = numpy.concatenate([f['tas'][1].ravel() for f in fields])
            join = lambda n: numpy.concatenate([f[n][0].ravel() for f in fields])
            check_observations(found, day['day'], mask, join('tas'), join('RU'), [join('SSU')], location=numpy.asarray(found.location, float))
            require_close(lookup[:, numpy.asarray(found.location, int)], numpy.vstack([y.ravel(), x.ravel()]), 'place of the observations of %s' % which, 0, 1e-4)
            require(list(source.local_correlation_length_scale(which)) == [500000.0], 'length scale')
            for k in range(2):
                check_observations(single[k].observations(which), day['day'], fields[k]['tas'][1], fields[k]['tas'][0], fields[k]['RU'][0], [fields[k]['SSU'][0]])
    return True
