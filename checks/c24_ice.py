"""Cases: fields of ice surface temperatures (daily mean, lowest, highest, spread, eight times of day), numbers of observations,
surface kinds, ice fractions and uncertainties for one or both hemispheres, with gaps, outliers and values at the quality limits;
any model coefficients, day and placing of hemispheres; files of inputs and of model parameters. Oracle: the quality rules and the
regression model written out for each pixel with sums over shifted fields. A case is non-trivial when some pixels are accepted
and some are not."""

import io
import os
import sys
from contextlib import redirect_stderr
from datetime import datetime, timedelta

import netCDF4
import numpy
import scipy.io
from hypothesis import strategies as st
from harness import facet, require, require_close, raises, scratch

from eustace.outputformats import definitions
from eustace.surfaceairmodel.fileio.ice import IceSurfaceTemperatureQualityControlNetCDF
from eustace.surfaceairmodel.model_ice import ModelIce
from eustace.surfaceairmodel.model_ice_input_processing import IceSurfaceTemperatureQualityControl
from eustace.surfaceairmodel import run_ice
from eustace.surfaceairmodel.run_ice import run_day

OBSERVABLES = ['tas', 'tasmin', 'tasmax']
SAMPLING = {('nh', 'LandIce'): (1.6, 2.2, 2.1), ('nh', 'SeaIce'): (0.0, 2.9, 2.0), ('sh', 'LandIce'): (1.6, 1.5, 3.8), ('sh', 'SeaIce'): (1.7, 5.7, 2.9)}
RELATION = {'LandIce': (1.5, 1.8, 2.0), 'SeaIce': (1.7, 1.8, 2.1)}
FIELDS = ['surface_temperature', 'surface_temperature_min', 'surface_temperature_max', 'surface_temperature_std', 'surface_temperature_3d', 'Nobs3d', 'land_mask', 'sea_ice_fraction',
          'uncorrelated_uncertainty', 'synoptically_correlated_uncertainty', 'large_scale_correlated_uncertainty']

share = st.sampled_from([0.0, 0.0, 0.05, 0.3, 0.6])
fields = st.fixed_dictionaries({'seed': st.integers(0, 10 ** 6), 'rows': st.integers(5, 9), 'columns': st.integers(5, 9), 'gaps': share, 'uncertainty_gaps': share, 'counts': share, 'outliers': st.sampled_from([0.0, 0.03, 0.1, 0.4]),
                                'land': st.sampled_from([0.0, 0.3, 0.5, 1.0]), 'ice': st.sampled_from([0.0, 0.4, 0.8, 1.0]), 'smooth': st.booleans()})
coefficient = st.integers(-400, 400).map(lambda x: x / 128.0)
slope = st.integers(1, 200).map(lambda x: x / 128.0)
vectors = st.tuples(coefficient, slope, coefficient, coefficient).map(list)
models = st.fixed_dictionaries({h: st.fixed_dictionaries({p: st.lists(vectors, min_size=3, max_size=3) for p in ['LandIce', 'SeaIce']}) for h in ['nh', 'sh']})


def generated(case, shape=None):
    """values of all fields with masks (True where missing)"""
    r = numpy.random.RandomState(case['seed'])
    shape = shape or (case['rows'], case['columns'])
    quarter = lambda x: numpy.around(x * 4) / 4
    spread = 1.0 if case['smooth'] else 6.0
    unlikely = lambda values, size=shape: numpy.where(r.uniform(size=size) < case['outliers'], values, 0.0)
    gap = lambda p, size=shape: r.uniform(size=size) < p
    base = 255.0 + r.uniform(-spread, spread, size=shape)
    if r.uniform() < 0.3:
        base += 22.0
    mean = quarter(base + unlikely(r.choice([-30.0, -12.0, 12.0, -10.0, 25.0], size=shape)))
    low = quarter(base - 4 + unlikely(r.choice([-30.0, -15.0, -9.0, 12.0], size=shape)))
    high = quarter(base + 4 + unlikely(r.choice([-30.0, -12.0, 18.0, 30.0], size=shape)))
    bins = quarter(base + r.uniform(-2, 2, size=(8,) + shape) + unlikely(r.choice([-20.0, 30.0, 90.0], size=(8,) + shape), (8,) + shape))
    near = r.uniform(size=shape) < 0.05
    mean = numpy.where(near, r.choice([278.14, 278.16, 278.0, 278.25], size=shape), mean)
    std = numpy.where(r.uniform(size=shape) < case['outliers'], r.choice([7.06, 7.08, 9.0, 30.0], size=shape), r.uniform(0, 6, size=shape))
    counts = numpy.where(gap(case['counts'], (8,) + shape), 0, r.randint(1, 9, size=(8,) + shape))
    for some in ([0, 1, 6, 7], [2, 3, 4, 5]):
        counts[some] = numpy.where(gap(case['counts'] * 0.3), 0, counts[some])
    land = numpy.where(r.uniform(size=shape) < case['land'], r.choice([1, 4], size=shape), r.choice([0, 2, 3, 5], size=shape))
    fraction = numpy.where(r.uniform(size=shape) < case['ice'], r.choice([0.3, 0.31, 0.5, 0.85, 1.0], size=shape), r.choice([0.0, 0.1, 0.29, 0.2999], size=shape))
    p = case['gaps']
    out = {'surface_temperature': (mean, gap(p)), 'surface_temperature_min': (low, gap(p)), 'surface_temperature_max': (high, gap(p)), 'surface_temperature_std': (std, gap(p)),
           'surface_temperature_3d': (bins, gap(p, (8,) + shape)), 'Nobs3d': (counts, gap(p * 0.5, (8,) + shape)), 'land_mask': (land, None), 'sea_ice_fraction': (fraction, gap(p * 0.5))}
    for name in FIELDS[8:]:
        out[name] = (r.randint(0, 200, size=shape) / 64.0, gap(case['uncertainty_gaps']))
    return out


def arrays(values):
    result = {}
    for name, (data, mask) in values.items():
        if mask is None:
            result[name] = data.copy()
        else:
            # garbage under the mask, and no mask array at all when nothing is missing (as read from files)
            data = numpy.where(mask, data.dtype.type(9999), data)
            result[name] = numpy.ma.masked_array(data, mask=mask if mask.any() else False)
    return result


def over_bins(data, mask, bins):
    present = ~mask[bins]
    number = present.sum(axis=0)
    return numpy.where(present, data[bins], 0).sum(axis=0), number


def clouded(values, usable):
    """(flagged, undecided): more than 10 K below the mean of usable neighbours"""
    total, number = numpy.zeros(values.shape), numpy.zeros(values.shape, int)
    rows, columns = values.shape
    inner = (slice(2, rows - 2), slice(2, columns - 2))
    for i in range(-2, 3):
        for j in range(-2, 3):
            if i or j:
                part = (slice(2 + i, rows - 2 + i), slice(2 + j, columns - 2 + j))
                total[inner] += numpy.where(usable[part], values[part], 0.0)
                number[inner] += usable[part]
    below = numpy.where(number >= 2, total / numpy.maximum(number, 1) - values, 0.0)
    return usable & (below > 10.0), usable & (numpy.abs(below - 10.0) < 1e-6)


def accepted(values):
    """for each observable pixels accepted and those within rounding of a limit; and the surface kinds"""
    nothing = numpy.zeros(values['land_mask'][0].shape, bool)
    land_ice = numpy.isin(values['land_mask'][0], (1, 4))
    fraction, unknown = values['sea_ice_fraction']
    ice = (fraction >= 0.3) & ~unknown
    sums = {}
    for which, bins in [('day', [2, 3, 4, 5]), ('night', [0, 1, 6, 7])]:
        total, number = over_bins(*values['Nobs3d'], bins)
        sums[which] = (total == 0) | (number == 0)
    std, std_missing = values['surface_temperature_std']
    mean, mean_missing = values['surface_temperature']
    common = ((std > 7.07) & ~std_missing) | ((mean > 278.15) & ~mean_missing)
    high, high_missing = values['surface_temperature_max']

    def far(field, missing, bins, limit):
        total, number = over_bins(*values['surface_temperature_3d'], bins)
        difference = numpy.abs(field - total / numpy.maximum(number, 1))
        valid = ~missing & (number > 0)
        return valid & (difference > limit), valid & (numpy.abs(difference - limit) < 1e-6)

    all_bins, day = far(mean, mean_missing, list(range(8)), 10.0), far(high, high_missing, [2, 3, 4, 5], 20.0)
    rejected = {'tas': common | sums['day'] | sums['night'] | all_bins[0], 'tasmin': common | sums['night'], 'tasmax': common | sums['day'] | day[0]}
    undecided = {'tas': all_bins[1], 'tasmin': nothing, 'tasmax': day[1]}
    result = {}
    for observable, name in zip(OBSERVABLES, ['surface_temperature', 'surface_temperature_min', 'surface_temperature_max']):
        data, missing = values[name]
        good = ~missing & ~rejected[observable]
        doubt = undecided[observable]
        bad = nothing.copy()
        for surface in (ice, land_ice):
            flagged, near = clouded(data, good & surface)
            bad |= flagged
            doubt = doubt | near
        if undecided[observable].any():
            # a doubtful pixel changes the mean of its neighbours
            doubt = numpy.ones_like(doubt)
        result[observable] = (data, good & (ice | land_ice) & ~bad, doubt)
    return result, {'LandIce': land_ice, 'SeaIce': ice & ~land_ice}


def latitudes_of(hemisphere, rows, resolution=0.25, start=None):
    if start is None:
        start = 60.125 if hemisphere == 'nh' else -80.125
    return start + resolution * numpy.arange(rows)


def inputs_for(case, values, hemisphere, day, **extra):
    shape = values['surface_temperature'][0].shape
    lat = latitudes_of(hemisphere, shape[0], **extra)
    return IceSurfaceTemperatureQualityControl(daynumber=day, lat=lat, lon=-180.0 + 0.25 * numpy.arange(shape[1]), **arrays(values))


def compare(found, mask, expected, doubt, what, tolerance=1e-9):
    found = numpy.ma.masked_array(found)
    where = ~doubt
    require(found.shape == mask.shape, '%s has shape %s', what, found.shape)
    present = ~numpy.ma.getmaskarray(found)
    require(numpy.array_equal(present[where], mask[where]), '%s: present %s, expected %s', what, present, mask)
    both = present & mask & where
    require_close(numpy.ma.getdata(found)[both], expected[both], what, tolerance, tolerance)


@facet(st.fixed_dictionaries({'field': fields, 'hemisphere': st.sampled_from(['nh', 'sh'])}), quick=1500, thorough=30000, cost=1, shards=4)
def quality(case):
    """Surface temperatures accepted by quality control"""
    values = generated(case['field'])
    inputs = inputs_for(case, values, case['hemisphere'], 50000)
    expected, surface = accepted(values)
    require(inputs.hemisphere() == case['hemisphere'], 'hemisphere %s', inputs.hemisphere())
    for kind, method in [('LandIce', inputs.land_ice_mask), ('SeaIce', inputs.sea_ice_mask)]:
        require(numpy.array_equal(~numpy.asarray(method()), surface[kind]), '%s at %s, expected %s', kind, ~numpy.asarray(method()), surface[kind])
    before = arrays(values)
    for observable, method in zip(OBSERVABLES, [inputs.quality_controlled_surface_temperature, inputs.quality_controlled_surface_temperature_min, inputs.quality_controlled_surface_temperature_max]):
        data, good, doubt = expected[observable]
        compare(method(), good, data, doubt, 'accepted ' + observable, 0.0)
    for name, array in before.items():
        now = getattr(inputs, name)
        require(numpy.array_equal(numpy.ma.getmaskarray(now), numpy.ma.getmaskarray(array)) and numpy.array_equal(numpy.ma.getdata(now), numpy.ma.getdata(array)), 'input %s is changed', name)
    good = expected['tas'][1]
    return bool(good.any() and not good.all())


def modelled(values, model, hemisphere, day):
    """results by name: (values, present, doubtful)"""
    quality_of, surface = accepted(values)
    complete = ~(values[FIELDS[8]][1] | values[FIELDS[9]][1] | values[FIELDS[10]][1])
    random, synoptic, large = [values[name][0] for name in FIELDS[8:]]
    phase = 2 * numpy.pi * (day - 18262) / 365.2425
    results = {}
    for k, observable in enumerate(OBSERVABLES):
        data, good, doubt = quality_of[observable]
        present = good & complete
        parts = {name: numpy.zeros(data.shape) for name in ['', '_unc_rand', '_unc_corr_local', '_unc_sys', '_unc_cloud']}
        for kind in ('LandIce', 'SeaIce'):
            c = model[hemisphere][kind][k]
            offset = c[0] + c[2] * numpy.cos(phase) + c[3] * numpy.sin(phase)
            own = {'': c[1] * (data - 273.15) + offset + 273.15, '_unc_rand': c[1] * numpy.sqrt(random ** 2 + SAMPLING[hemisphere, kind][k] ** 2), '_unc_corr_local': numpy.sqrt((c[1] * synoptic) ** 2 + RELATION[kind][k] ** 2),
                   '_unc_sys': numpy.full(data.shape, 0.2 * c[1]), '_unc_cloud': c[1] * (large - 0.2 + (2.0 if observable == 'tasmin' else 0.0))}
            for name in parts:
                parts[name] = numpy.where(surface[kind], own[name], parts[name])
        for name, value in parts.items():
            results[observable + name] = (value, present, doubt)
        without = parts['_unc_rand'] ** 2 + parts['_unc_corr_local'] ** 2 + parts['_unc_sys'] ** 2
        results[observable + '_unc_no_cloud'] = (numpy.sqrt(without), present, doubt)
        results[observable + 'uncertainty'] = (numpy.sqrt(without + parts['_unc_cloud'] ** 2), present, doubt)
    return results


def model_of(model):
    made = ModelIce()
    made.components = {h: {p: {o: numpy.array(v) for o, v in zip(OBSERVABLES, rows)} for p, rows in parts.items()} for h, parts in model.items()}
    return made


@facet(st.fixed_dictionaries({'field': fields, 'hemisphere': st.sampled_from(['nh', 'sh']), 'model': models, 'day': st.integers(0, 65000)}), quick=900, thorough=16000, cost=2, shards=4)
def hemisphere(case):
    """The model for one hemisphere"""
    values = generated(case['field'])
    inputs = inputs_for(case, values, case['hemisphere'], case['day'])
    with redirect_stderr(io.StringIO()):
        results = model_of(case['model']).process_hemisphere(inputs)
    expected = modelled(values, case['model'], case['hemisphere'], case['day'])
    require(sorted(results) == sorted(expected), 'results %s, expected %s', sorted(results), sorted(expected))
    for name, (value, present, doubt) in expected.items():
        compare(results[name], present, value, doubt, name)
    present = expected['tas'][1]
    return bool(present.any() and not present.all())


@facet(st.fixed_dictionaries({'south': fields, 'north': fields, 'model': models, 'day': st.integers(0, 65000), 'resolution': st.sampled_from([0.25, 0.5, 1.0, 0.1]), 'between': st.integers(1, 12), 'first': st.integers(0, 4),
                              'wrong': st.sampled_from([None] * 9 + ['day', 'order', 'longitudes', 'resolution', 'decreasing', 'uneven'])}), quick=700, thorough=12000, cost=3, shards=4)
def both_hemispheres(case):
    """Hemispheres in a common field"""
    south, north = dict(case['south']), dict(case['north'])
    north['columns'] = south['columns']
    if case['wrong'] == 'longitudes':
        north['columns'] += 1
    values = {'sh': generated(south), 'nh': generated(north)}
    resolution = case['resolution']
    start = -resolution * (south['rows'] - 1 + case['first']) - resolution / 2
    # southern latitudes are below 0, and northern ones above
    between = max(case['between'], case['first'] + 2)
    northern = start + resolution * (south['rows'] - 1 + between)
    wider = 2 if case['wrong'] == 'resolution' else 1
    inputs = {'sh': inputs_for(case, values['sh'], 'sh', case['day'], start=start, resolution=resolution),
              'nh': inputs_for(case, values['nh'], 'nh', case['day'] + (1 if case['wrong'] == 'day' else 0), start=northern, resolution=resolution * wider)}
    if case['wrong'] == 'decreasing':
        inputs['sh'].latitude = inputs['sh'].latitude[::-1]
    if case['wrong'] == 'uneven':
        inputs['nh'].latitude = inputs['nh'].latitude + numpy.arange(north['rows']) ** 2 * resolution / 10
    order = ['nh', 'sh'] if case['wrong'] == 'order' else ['sh', 'nh']
    with redirect_stderr(io.StringIO()):
        if case['wrong']:
            require(raises(ValueError, model_of(case['model']).process_global, *[inputs[h] for h in order]), 'inputs with wrong %s are accepted', case['wrong'])
            return True
        results = model_of(case['model']).process_global(*[inputs[h] for h in order])
    require(results['daynumber'] == case['day'], 'day %s', results['daynumber'])
    expected = {h: modelled(values[h], case['model'], h, case['day']) for h in order}
    require(sorted(results) == sorted(list(expected['sh']) + ['daynumber']), 'results %s', sorted(results))
    total = south['rows'] - 1 + between + north['rows']
    for name in expected['sh']:
        whole = [numpy.zeros((total, south['columns']), kind) for kind in (float, bool, bool)]
        for h, at in [('sh', 0), ('nh', south['rows'] - 1 + between)]:
            for target, source in zip(whole, expected[h][name]):
                target[at:at + source.shape[0]] = source
        compare(results[name], whole[1], whole[0], whole[2], name)
    return bool(expected['nh']['tas'][1].any() and expected['sh']['tas'][1].any())


def save_parameters(path, order, vectors):
    names = numpy.empty((1, len(order)), object)
    matrix = numpy.empty((len(order), max(len(v) for v in vectors)), object)
    for i, name in enumerate(order):
        names[0, i] = name
        for k, v in enumerate(vectors[i]):
            matrix[i, k] = numpy.array(v, float).reshape(-1, 1)
    scipy.io.savemat(path, {'sf_name': names, 'M': matrix})


@facet(st.fixed_dictionaries({'model': models, 'swap': st.booleans(), 'extra': st.booleans(), 'wrong': st.sampled_from([None, None, None, 'land', 'sea', 'two'])}), quick=200, thorough=4000)
def parameters(case):
    """Model parameters read from files are those for each surface and observable"""
    order = ['SeaIce', 'LandIce'] if case['swap'] else ['LandIce', 'SeaIce']
    if case['wrong'] in ('land', 'sea'):
        order.remove({'land': 'LandIce', 'sea': 'SeaIce'}[case['wrong']])
    if case['extra']:
        order.insert(1, 'Other')
    with scratch() as folder:
        paths = {}
        for h in ['nh', 'sh']:
            paths[h] = os.path.join(folder, h + '.mat')
            vectors = [case['model'][h].get(name, [[9.0] * 4] * 3) for name in order]
            save_parameters(paths[h], order, [v[:2] for v in vectors] if case['wrong'] == 'two' else vectors)
        if case['wrong']:
            require(raises(ValueError, ModelIce, paths), 'parameters with wrong %s are accepted', case['wrong'])
            return True
        model = ModelIce(paths)
    for h in ['nh', 'sh']:
        for kind in ['LandIce', 'SeaIce']:
            for k, observable in enumerate(OBSERVABLES):
                require(list(model.components[h][kind][observable]) == case['model'][h][kind][k], '%s %s %s: %s, expected %s', h, kind, observable, model.components[h][kind][observable], case['model'][h][kind][k])
    return True


def save_inputs(path, values, lat, lon, when, with_time=True, kind='f8'):
    with netCDF4.Dataset(path, 'w') as nc:
        for name, size in [('time', 1), ('lat', len(lat)), ('lon', len(lon)), ('bin', 8)]:
            nc.createDimension(name, size)
        time = nc.createVariable('time', 'i4', ('time',))
        time.units = 'seconds since 1981-01-01 00:00:00'
        time[:] = [int((when - datetime(1981, 1, 1)).total_seconds())]
        nc.createVariable('lat', kind, ('lat',))[:] = lat
        nc.createVariable('lon', kind, ('lon',))[:] = lon
        for name, (data, mask) in values.items():
            dimensions = (('bin',) if '3d' in name else ('time',) if with_time else ()) + ('lat', 'lon')
            variable = nc.createVariable(name, 'i2' if data.dtype.kind in 'iu' else kind, dimensions, fill_value=-99, zlib=True, complevel=1)
            array = data if mask is None else numpy.ma.masked_array(data, mask)
            variable[:] = array if len(dimensions) == array.ndim else array[None]


@facet(st.fixed_dictionaries({'field': fields, 'hemisphere': st.sampled_from(['nh', 'sh']), 'day': st.integers(1, 65000), 'hour': st.sampled_from([0, 0, 6, 12, 23]), 'with_time': st.booleans(), 'model': models}), quick=100, thorough=1500, cost=4, shards=2)
def files(case):
    """Inputs read from files"""
    values = generated(case['field'])
    shape = values['land_mask'][0].shape
    lat, lon = latitudes_of(case['hemisphere'], shape[0]), -180 + 0.25 * numpy.arange(shape[1])
    when = datetime(1850, 1, 1) + timedelta(days=case['day'], hours=case['hour'])
    if when < datetime(1915, 1, 1) or when > datetime(2048, 1, 1):
        when = datetime(2000, 1, 1) + timedelta(hours=case['hour'])
    with scratch() as folder:
        path = os.path.join(folder, 'a.nc')
        save_inputs(path, values, lat, lon, when, case['with_time'])
        inputs = IceSurfaceTemperatureQualityControlNetCDF(path)
        day = (when - datetime(1850, 1, 1)).days
        require(inputs.daynumber == day, 'day %s, expected %s', inputs.daynumber, day)
        require(numpy.array_equal(inputs.latitude, lat) and numpy.array_equal(inputs.longitude, lon), 'latitudes and longitudes')
        with redirect_stderr(io.StringIO()):
            results = model_of(case['model']).process_hemisphere(inputs)
    expected = modelled(values, case['model'], case['hemisphere'], day)
    for name, (value, present, doubt) in expected.items():
        compare(results[name], present, value, doubt, name)
    present = expected['tas'][1]
    return bool(present.any() and not present.all())


whole = st.fixed_dictionaries({'south': fields, 'north': fields, 'model': models, 'rows': st.tuples(st.integers(20, 120), st.integers(20, 120)).map(list), 'day': st.integers(40000, 65000), 'exists': st.sampled_from([None] * 5 + ['main', 'ancillary']), 'command': st.booleans()})


@facet(whole, quick=4, thorough=40, cost=60, shards=4)
def whole_days(case):
    """From input files to output files for a day"""
    rows = {'sh': case['rows'][0], 'nh': case['rows'][1]}
    values = {h: generated(case[key], (rows[h], 1440)) for h, key in [('sh', 'south'), ('nh', 'north')]}
    starts = {'sh': -89.875, 'nh': 90.125 - 0.25 * rows['nh']}
    when = datetime(1850, 1, 1) + timedelta(days=case['day'], hours=12)
    lon = -179.875 + 0.25 * numpy.arange(1440)
    with scratch() as folder:
        name = lambda s: os.path.join(folder, s)
        for h in values:
            save_inputs(name(h + '.nc'), values[h], starts[h] + 0.25 * numpy.arange(rows[h]), lon, when)
            save_parameters(name(h + '.mat'), ['LandIce', 'SeaIce'], [case['model'][h]['LandIce'], case['model'][h]['SeaIce']])
        arguments = ('catalogue', 'somewhere', name('main.nc'), name('ancillary.nc'), name('sh.mat'), name('nh.mat'), name('sh.nc'), name('nh.nc'))
        if case['exists']:
            with open(name(case['exists'] + '.nc'), 'w') as stream:
                stream.write('kept')
            require(raises(ValueError, run_day, *arguments), 'existing %s file is overwritten', case['exists'])
            require(open(name(case['exists'] + '.nc')).read() == 'kept', 'existing file is changed')
            return True
        with redirect_stderr(io.StringIO()):
            if case['command']:
                kept = sys.argv
                sys.argv = ['run_ice'] + [word for option, value in zip(['output_main', 'output_ancillary', 'input_model_sh', 'input_model_nh', 'input_satellite_sh', 'input_satellite_nh', 'institution'], arguments[2:] + ('somewhere',)) for word in ('--' + option, value)]
                try:
                    run_ice.main()
                finally:
                    sys.argv = kept
            else:
                run_day(*arguments)
        expected = {h: modelled(values[h], case['model'], h, case['day']) for h in values}
        steps = {'': 0.005}
        seen = set()
        for which in ['main', 'ancillary']:
            with netCDF4.Dataset(name(which + '.nc')) as nc:
                require(float(nc.variables['time'][0]) == case['day'], 'time %s', nc.variables['time'][:])
                for variable in nc.variables:
                    if variable not in expected['sh']:
                        continue
                    seen.add((which, variable))
                    step = 0.005 if variable in OBSERVABLES else 0.001
                    array = nc.variables[variable][0]
                    for h, at in [('sh', 0), ('nh', 720 - rows['nh'])]:
                        value, present, doubt = expected[h][variable]
                        # values out of the range of the packing are not decided
                        doubt = doubt | (present & (numpy.abs(value - (273.15 if variable in OBSERVABLES else 0.0)) > 32760 * step))
                        compare(array[at:at + rows[h]], present, value, doubt, variable, step * 0.51)
                    require(numpy.all(numpy.ma.getmaskarray(array)[rows['sh']:720 - rows['nh']]), '%s between the hemispheres', variable)
        require(seen == {('main', o + s) for o in OBSERVABLES for s in ['', 'uncertainty']} | {('ancillary', o + s) for o in OBSERVABLES for s in ['_unc_no_cloud', '_unc_rand', '_unc_corr_local', '_unc_sys', '_unc_cloud']}, 'variables %s', sorted(seen))
    return True
