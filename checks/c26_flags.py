"""Cases: fields on a grid of 24 by 48 cells (the shape of global fields is set to this before the code is loaded) with
values drawn around every threshold; flag files of the days of windows and years, some missing, with any combination of
flags that the checks can set; windows of 0 to 16 days, ranges of 1 to 9 years, count thresholds; leap days, ends of months
and years; masking rules; grids from 1 by 2 to 34 by 27 for the window statistics. Files are real NetCDF files, the coast
and altitude maps being substituted. Oracle: the condition of each flag evaluated cell by cell on padded arrays, with all
other bits unchanged. Cells within 1e-9 of a threshold are not decided. A case is non-trivial when some cell gets a flag
and another does not (for windows of values: when the field is not constant)."""

import calendar
import datetime
import math
import os
import sys

import iris
import netCDF4
import numpy
from hypothesis import strategies as st
from harness import facet, require, require_close, scratch

from eumopps.version.svn import set_allow_unversioned_code
from eustace.outputformats import definitions

set_allow_unversioned_code(True)

NY, NX = 24, 48
definitions.GLOBAL_FIELD_SHAPE = (1, NY, NX)
definitions.GLOBAL_FIELD_RESOLUTION = 7.5

MAPS = {}
load_cube = iris.load_cube


def substitute(path, *args, **kwargs):
    name = os.path.basename(str(path))
    for word, values in MAPS.items():
        if word in name:
            return iris.cube.Cube(values.copy(), var_name={'coastal': 'coastal_influence', 'DEM': 'dem'}[word])
    return load_cube(path, *args, **kwargs)


iris.load_cube = substitute

from eustace.postprocess import apply_mask, calendar_check, cell_percentile_calculation, cell_percentile_threshold, flags, merge_flag_files
from eustace.postprocess import operation_count, outlier_check, outlier_window_check, threshold_check, window_check

ITERATION = 9
# bits, as documented
DAY, PRIOR_WINDOW, POST_WINDOW, PRIOR_CALENDAR, POST_CALENDAR, CLIMATOLOGY, LARGE_SCALE = 1, 2, 4, 8, 16, 32, 64
AREAL_LOW, AREAL_HIGH, EXTREME_LOW, EXTREME_HIGH, PERSISTANT, MARINE, LOCATION_LOW, LOCATION_HIGH, UNCONSTRAINED = 128, 256, 512, 1024, 2048, 4096, 8192, 16384, 32768

dates = st.one_of(st.dates(datetime.date(1852, 1, 1), datetime.date(2017, 12, 31)), st.sampled_from([datetime.date(2012, 2, 29), datetime.date(1900, 2, 28), datetime.date(1900, 3, 1), datetime.date(1999, 12, 31), datetime.date(2000, 1, 1), datetime.date(2000, 2, 29), datetime.date(2013, 1, 1)]))
seeds = st.integers(0, 2 ** 32 - 1)


def day(text):
    return datetime.datetime(*[int(x) for x in text.split('-')])


def stamp(d):
    return '%04d%02d%02d' % (d.year, d.month, d.day)


def create(path, d, fields):
    """a file of global fields: {variable name: (values, names)}"""
    os.makedirs(os.path.dirname(path), exist_ok=True)
    f = netCDF4.Dataset(path, 'w')
    for name, size in (('time', None), ('latitude', NY), ('longitude', NX)):
        f.createDimension(name, size)
        v = f.createVariable(name, 'f4' if name != 'time' else 'f8', (name,))
        v.standard_name = name
        v.units = {'time': 'days since 1850-01-01T00:00:00Z', 'latitude': 'degrees_north', 'longitude': 'degrees_east'}[name]
        v[:] = {'time': [(d - datetime.datetime(1850, 1, 1)).days], 'latitude': -90 + 7.5 * (numpy.arange(NY) + 0.5), 'longitude': -180 + 7.5 * (numpy.arange(NX) + 0.5)}[name]
    for name, (values, names) in fields.items():
        v = f.createVariable(name, values.dtype, ('time', 'latitude', 'longitude'), fill_value=65535 if values.dtype == numpy.uint16 else -1e30)
        v.setncatts(names)
        v[:] = values.reshape(1, NY, NX)
    f.close()


def flag_path(directory, d):
    return os.path.join(directory, '%04d' % d.year, 'eustace_analysis_%d_qc_flags_%s.nc' % (ITERATION, stamp(d)))


def write_flags(directory, d, values):
    create(flag_path(directory, d), d, {'tas_qc': (values.astype(numpy.uint16), {'standard_name': 'air_temperature status_flag', 'long_name': 'Quality control flags'})})


def read_flags(path):
    f = netCDF4.Dataset(path)
    f.set_auto_mask(False)
    v = f.variables['tas_qc']
    result = v[:].reshape(NY, NX).astype(numpy.int64)
    f.close()
    return result


def analysis_path(directory, kind, d):
    name = {'analysis': 'eustace_analysis'}.get(kind, 'eustace_%s_component' % kind)
    return os.path.join(directory, '%s_%d' % (name, ITERATION), '%04d' % d.year, '%s_%d_%s.nc' % (name, ITERATION, stamp(d)))


def write_analysis(directory, kind, d, values, uncertainty=None, influence=None, members=()):
    fields = {'tas': (values, {'standard_name': 'air_temperature', 'long_name': 'Average daily surface air temperature', 'units': 'K'})}
    fields['tasuncertainty'] = (values * 0 if uncertainty is None else uncertainty, {'long_name': 'Total uncertainty in average daily surface air temperature', 'units': 'K'})
    fields['tasobservationinfluence'] = (values * 0 if influence is None else influence, {'long_name': 'Observation influence for average daily surface air temperature'})
    for k, m in members:
        fields['tasensemble_%d' % k] = (m, {'long_name': 'Average daily surface air temperature ensemble', 'units': 'K'})
    create(analysis_path(directory, kind, d), d, fields)


def random_flags(r, bits, chance=0.5):
    """every combination of some bits, the rest of the bits drawn once per field and sparsely"""
    result = numpy.zeros((NY, NX), numpy.int64)
    for b in range(16):
        result |= (r.rand(NY, NX) < (chance if (1 << b) & bits else 0.1)).astype(numpy.int64) << b
    result[result == 65535] = 0
    return result


def same(actual, expected, what, sure=None):
    actual = numpy.asarray(actual)
    require(actual.shape == expected.shape, '%s: shape %s', what, actual.shape)
    require(not numpy.ma.is_masked(actual), '%s: missing values', what)
    bad = numpy.asarray(actual).astype(numpy.int64) != expected
    if sure is not None:
        bad &= sure
    for i in numpy.argwhere(bad)[:1]:
        i = tuple(i)
        require(False, '%s: flags %s instead of %s in cell %s (%s cells differ)', what, bin(int(actual[i])), bin(int(expected[i])), i, int(bad.sum()))


@st.composite
def windows(draw):
    n = draw(st.sampled_from([0, 1, 1, 2, 3, 5, 16]))
    return {'day': str(draw(dates)), 'range': n, 'threshold': draw(st.integers(0, n + 1)), 'missing': draw(st.sampled_from(['none', 'none', 'before', 'after', 'all', 'some'])), 'chance': draw(st.sampled_from([0.2, 0.5, 0.9])), 'seed': draw(seeds)}


def series(case, directory, shifted, bits):
    """flag files of the days before and after; returns {shift: flags}"""
    r = numpy.random.RandomState(case['seed'])
    result = {}
    for s, d in shifted:
        gone = {'none': False, 'before': s < 0, 'after': s > 0, 'all': True, 'some': r.rand() < 0.4}[case['missing']] and s != 0
        if not gone:
            result[s] = random_flags(r, bits, case['chance'])
            write_flags(directory, d, result[s])
    return result


@facet(windows(), quick=24, thorough=800, cost=3, shards=8)
def window(case):
    """days of a window of days: too few observed days before or after"""
    d = day(case['day'])
    with scratch() as directory:
        f = series(case, directory, [(s, d + datetime.timedelta(days=s)) for s in range(-case['range'] - 1, case['range'] + 2)], DAY)
        actual = window_check.local_window_constraint_checks(directory, directory, ITERATION, d, case['range'], case['threshold'], window_check.DAY_FLAG)
    near = {s: v for s, v in f.items() if abs(s) <= case['range']}
    before = sum([(v & DAY == 0).astype(int) for s, v in near.items() if s < 0], numpy.zeros((NY, NX), int))
    after = sum([(v & DAY == 0).astype(int) for s, v in near.items() if s > 0], numpy.zeros((NY, NX), int))
    expected = f[0] | (before < case['threshold']) * PRIOR_WINDOW | (after < case['threshold']) * POST_WINDOW
    same(actual, expected, 'window check')
    return 0 < case['threshold'] <= case['range']


@facet(windows(), quick=24, thorough=800, cost=3, shards=8)
def persistence(case):
    """outliers on a number of days of the window"""
    d = day(case['day'])
    with scratch() as directory:
        f = series(case, directory, [(s, d + datetime.timedelta(days=s)) for s in range(-case['range'] - 1, case['range'] + 2)], 0)
        actual = outlier_window_check.persistant_outlier_check(directory, directory, ITERATION, d, case['range'], case['threshold'])
    count = sum([(v & (AREAL_LOW | AREAL_HIGH | EXTREME_LOW | EXTREME_HIGH) != 0).astype(int) for s, v in f.items() if abs(s) <= case['range']], numpy.zeros((NY, NX), int))
    same(actual, f[0] | (count >= case['threshold']) * PERSISTANT, 'persistence check')
    return case['threshold'] > 0


@st.composite
def years(draw):
    d = draw(dates)
    before, after = draw(st.integers(0, 5)), draw(st.integers(0, 4))
    return {'day': str(d), 'start': d.year - before, 'end': d.year + after, 'missing': draw(st.sampled_from(['none', 'none', 'before', 'after', 'all', 'some'])), 'chance': draw(st.sampled_from([0.5, 0.8, 0.95])), 'seed': draw(seeds)}


def other_year(d, y):
    return d.replace(year=y) if not (d.month == 2 and d.day == 29 and not calendar.isleap(y)) else d.replace(year=y, day=28)


@facet(years(), quick=24, thorough=800, cost=3, shards=8)
def calendar_days(case):
    """the same day of other years: never observed before or after, or on fewer than three in all"""
    d = day(case['day'])
    with scratch() as directory:
        f = series(case, directory, [(y - d.year, other_year(d, y)) for y in range(case['start'] - 1, case['end'] + 2)], DAY | PRIOR_WINDOW | POST_WINDOW)
        actual = calendar_check.calendar_constraint_checks(directory, directory, ITERATION, d, case['start'], case['end'], calendar_check.CALENDAR_DAY_FLAG)
    observed = {s: (v & 7 != 7).astype(int) for s, v in f.items() if case['start'] <= d.year + s <= case['end']}
    none = numpy.zeros((NY, NX), int)
    before, after, total = (sum([v for s, v in observed.items() if chosen(s)], none) for chosen in (lambda s: s < 0, lambda s: s > 0, lambda s: True))
    same(actual, f[0] | (before < 1) * PRIOR_CALENDAR | (after < 1) * POST_CALENDAR | (total < 3) * UNCONSTRAINED, 'calendar check')
    return len(observed) > 2


# windows of values

def reflect(i, n):
    if n == 1:
        return 0
    i = i % (2 * n - 2)
    return i if i < n else 2 * n - 2 - i


def around(image, wy, wx):
    """windows of each cell, reflected over the ends of meridians and continued around circles of latitude"""
    ny, nx = image.shape
    rows = numpy.array([[reflect(i + k, ny) for k in range(-(wy // 2), wy // 2 + 1)] for i in range(ny)])
    columns = numpy.array([[(j + k) % nx for k in range(-(wx // 2), wx // 2 + 1)] for j in range(nx)])
    return image[rows[:, None, :, None], columns[None, :, None, :]]


@st.composite
def images(draw):
    ny, nx = draw(st.one_of(st.tuples(st.integers(1, 34), st.integers(2, 27)), st.tuples(st.sampled_from([9, 10, 11, 20, 21]), st.sampled_from([9, 10, 11, 20, 21]))))
    return {'shape': [ny, nx], 'window': [1 + 2 * draw(st.integers(0, 3)), 1 + 2 * draw(st.integers(0, 4))], 'block': draw(st.sampled_from([1, 3, 5, 8, 20])), 'range': draw(st.floats(50, 3000)), 'limits': [draw(st.integers(1, 4)), draw(st.integers(1, 6))], 'kind': draw(st.sampled_from(['normal', 'steps', 'flags'])), 'seed': draw(seeds)}


def image(case):
    r = numpy.random.RandomState(case['seed'])
    return {'normal': lambda: r.normal(280, 20, case['shape']), 'steps': lambda: r.randint(0, 4, case['shape']).astype(float), 'flags': lambda: r.rand(*case['shape']) < 0.1}[case['kind']]()


@facet(images(), quick=150, thorough=3000)
def window_statistics(case):
    """mean, median and quartiles of windows"""
    x = image(case)
    w = around(x, *case['window'])
    require_close(outlier_check.compute_window_mean(x, *case['window']), w.mean(axis=(2, 3)), 'mean of window', 1e-9, 1e-12)
    if case['kind'] != 'flags':
        for name, a, q in zip(('lower quartile', 'median', 'upper quartile'), outlier_check.compute_window_median_quartiles(x, *case['window']), (25, 50, 75)):
            require_close(a, numpy.percentile(w, q, axis=(2, 3)), name + ' of window', 1e-9, 1e-12)
    return x.min() < x.max()


def quartiles(latitudes, longitudes, x, km, most, block):
    result = [numpy.zeros(x.shape) for _ in range(3)]
    degrees = math.degrees(km / 6371.0)
    for first in range(0, len(latitudes), block):
        rows = slice(first, min(first + block, len(latitudes)))
        centre = float(numpy.mean(latitudes[rows]))
        y = min(int(math.ceil(degrees / (latitudes[1] - latitudes[0]))), most[0])
        z = min(int(math.ceil(degrees / math.cos(math.radians(centre)) / (longitudes[1] - longitudes[0]))), most[1])
        w = around(x, 2 * y + 1, 2 * z + 1)[rows]
        for a, q in zip(result, (25, 50, 75)):
            a[rows] = numpy.percentile(w, q, axis=(2, 3))
    return result


@facet(images(), quick=60, thorough=1500)
def range_statistics(case):
    """median and quartiles within a distance"""
    ny, nx = max(case['shape'][0], 2), case['shape'][1]
    case = dict(case, shape=[ny, nx])
    x = image(case).astype(float)
    latitudes = -90 + 180.0 / ny * (numpy.arange(ny) + 0.5)
    longitudes = -180 + 360.0 / nx * (numpy.arange(nx) + 0.5)
    expected = quartiles(latitudes, longitudes, x, case['range'], case['limits'], case['block'])
    actual = outlier_check.block_iqr_by_range(latitudes, longitudes, x, case['range'], max_latitude_cell_range=case['limits'][0], max_longitude_cell_range=case['limits'][1], latitude_block_size=case['block'])
    for name, a, e in zip(('lower quartile', 'median', 'upper quartile'), actual, expected):
        require_close(a, e, name + ' within range', 1e-9, 1e-12)
    return x.min() < x.max()


# flags of values

@st.composite
def fields(draw):
    return {'day': str(draw(dates)), 'seed': draw(seeds), 'spread': draw(st.sampled_from([0.02, 0.2, 1.0])), 'limit': draw(st.sampled_from([0.3, 0.5, 0.6, 2.0, 4.0])), 'count': draw(st.integers(0, 6))}


def smooth(r, spread, centre):
    """a field around a value, some of it constant on regions"""
    x = centre + spread * r.normal(size=(NY, NX))
    for _ in range(4):
        i, j = r.randint(NY), r.randint(NX)
        x[i:i + 9, j:j + 14] = centre + spread * 3 * r.normal()
    return x


def marine(coast, sea):
    coast = coast.copy()
    coast[0, :], coast[-1, :] = 0.0, 100.0
    coast[:, 0], coast[:, -1] = coast[:, 1], coast[:, -2]
    return sea(coast)


def coastline(r):
    return r.choice([0.0, 50.0, 94.9, 95.0, 95.1, 99.9, 100.0, 100.0], size=(NY, NX))


def expected_thresholds(unc, unl, influence, limits, coast):
    """flags of the threshold check, and where they are certain"""
    result, sure = marine(coast, lambda c: c == 100.0) * MARINE, numpy.ones((NY, NX), bool)
    for x, w, limit, bit, sign in ((unc, 13, limits[0], CLIMATOLOGY, 1), (unl, 17, limits[1], LARGE_SCALE, 1), (influence, 5, limits[2], DAY, -1)):
        excess = sign * (around(x, w, w).mean(axis=(2, 3)) - limit)
        result = result | (excess > 0) * bit
        sure &= abs(excess) > 1e-9
    return result, sure


@facet(fields(), quick=16, thorough=500, cost=3, shards=8)
def thresholds(case):
    """uncertainty and influence, smoothed, beyond their limits"""
    d = day(case['day'])
    r = numpy.random.RandomState(case['seed'])
    limits = [case['limit'], 0.5 * case['limit'], 0.8 * case['limit']]
    unc, unl, influence = (smooth(r, case['spread'], l) for l in limits)
    MAPS['coastal'] = coastline(r)
    zero = numpy.zeros((NY, NX))
    with scratch() as directory:
        write_analysis(directory, 'climatology', d, zero + 1, unc, zero + 2)
        write_analysis(directory, 'large_scale', d, zero + 1, unl, zero + 2)
        write_analysis(directory, 'analysis', d, zero + 1, zero + 2, influence)
        actual = [threshold_check.climatology_uncertainty_checks(directory, directory, ITERATION, d, limits[0]), threshold_check.large_scale_uncertainty_checks(directory, directory, ITERATION, d, limits[1]),
                  threshold_check.local_influence_checks(directory, directory, ITERATION, d, limits[2]), threshold_check.get_marine_flag()]
    expected, sure = expected_thresholds(unc, unl, influence, limits, MAPS['coastal'])
    for a, bit, what in zip(actual, (CLIMATOLOGY, LARGE_SCALE, DAY, MARINE), ('climatology uncertainty', 'large scale uncertainty', 'influence', 'marine')):
        same(a, expected & bit, what, sure)
    return all((expected & b).any() and not (expected & b).all() for b in (CLIMATOLOGY, LARGE_SCALE, DAY))


def spread_out(x):
    return around(x, 5, 5).any(axis=(2, 3))


@facet(fields(), quick=16, thorough=500, cost=3, shards=8)
def outliers(case):
    """values outside fixed limits and those of the surroundings, and the cells around them"""
    d = day(case['day'])
    r = numpy.random.RandomState(case['seed'])
    x = 280 + 3 * r.normal(size=(NY, NX))
    for _ in range(case['count']):
        x[r.randint(NY), r.randint(NX)] = r.choice([150.0, 193.15, 193.14, 193.16, 333.15, 333.14, 333.16, 400.0, 260.0, 300.0])
    altitude = r.choice([0.0, 0.0, 1000.0, 4000.0], size=(NY, NX))
    MAPS['DEM'] = altitude
    with scratch() as directory:
        write_analysis(directory, 'analysis', d, x - 4.5 * altitude / 1000)
        extreme = outlier_check.extremes_checks(directory, directory, ITERATION, d, 193.15, 333.15)
        areal = outlier_check.areal_checks(directory, directory, ITERATION, d, case['limit'])
    y = x - 4.5 * altitude / 1000
    same(extreme, spread_out(y < 193.15) * EXTREME_LOW | spread_out(y > 333.15) * EXTREME_HIGH, 'extremes', ~spread_out((abs(y - 193.15) < 1e-9) | (abs(y - 333.15) < 1e-9)))
    latitudes, longitudes = -90 + 7.5 * (numpy.arange(NY) + 0.5), -180 + 7.5 * (numpy.arange(NX) + 0.5)
    z = y + 4.5 * altitude / 1000
    low, middle, high = quartiles(latitudes, longitudes, z, 750.0, (50, 50), 20)
    below, above = low - case['limit'] * (middle - low) - z, z - high - case['limit'] * (high - middle)
    sure = ~spread_out((abs(below) < 1e-9) | (abs(above) < 1e-9))
    same(areal, spread_out(below > 0) * AREAL_LOW | spread_out(above > 0) * AREAL_HIGH, 'areal check', sure)
    return bool(areal.any() and not areal.all())


@st.composite
def percentiles(draw):
    n = draw(st.integers(0, 365))
    start = draw(st.integers(1850, 2010))
    return {'number': n, 'start': start, 'end': start + draw(st.integers(0, 6)), 'seed': draw(seeds), 'year': draw(st.sampled_from([1880, 2000, 2012]))}


@facet(percentiles(), quick=12, thorough=400, cost=3, shards=8)
def locations(case):
    """values outside the limits of their own place and day of the year"""
    reference = datetime.datetime(2000, 1, 1) + datetime.timedelta(days=case['number'])
    r = numpy.random.RandomState(case['seed'])
    x = r.normal(280, 3, (case['end'] - case['start'] + 1, NY, NX))
    d = reference.replace(year=case['year'])
    y = r.normal(280, 15, (NY, NX))
    with scratch() as directory:
        for k, year in enumerate(range(case['start'], case['end'] + 1)):
            write_analysis(directory, 'analysis', other_year(reference, year), x[k])
        cell_percentile_calculation.cell_percentile_calculation(directory, os.path.join(directory, 'p'), ITERATION, case['start'], case['end'], case['number'])
        found = numpy.load(os.path.join(directory, 'p', 'eustace_analysis_%d_percentiles_%02d%02d.npz' % (ITERATION, reference.month, reference.day)))
        low, middle, high = (numpy.percentile(x, q, axis=0) for q in (25, 50, 75))
        for name, e in (('lower_quartile_block', low), ('median_block', middle), ('upper_quartile_block', high)):
            require_close(found[name], e, name, 1e-9, 0)
        write_analysis(os.path.join(directory, 'a'), 'analysis', d, y)
        actual = cell_percentile_threshold.location_threshold_checks(os.path.join(directory, 'a'), os.path.join(directory, 'p'), directory, ITERATION, d)
    below, above = middle - 8 * (middle - low) - y, y - middle - 8 * (high - middle)
    same(actual, (below > 0) * LOCATION_LOW | (above > 0) * LOCATION_HIGH, 'location check', (abs(below) > 1e-9) & (abs(above) > 1e-9))
    return case['end'] > case['start']


@facet(st.fixed_dictionaries({'month': st.integers(1, 12), 'start': st.sampled_from([1899, 1951, 2003]), 'years': st.integers(0, 1), 'seed': seeds}), quick=12, thorough=120, cost=4, shards=8)
def location_months(case):
    """the limits of one month: one file for each of its days (29 of February), each of the values of that day only"""
    year, month = 2000, case['month']
    days = [d for d in (datetime.datetime(year, 1, 1) + datetime.timedelta(days=k) for k in range(366)) if d.month == month]
    margin = [days[0] - datetime.timedelta(days=1), days[-1] + datetime.timedelta(days=1)]
    r = numpy.random.RandomState(case['seed'])
    x = {}
    with scratch() as directory:
        for y in range(case['start'], case['start'] + case['years'] + 1):
            for d in days + margin:
                d = other_year(d, y)
                if d not in x:
                    x[d] = r.normal(280, 3, (NY, NX))
                    write_analysis(directory, 'analysis', d, x[d])
        output = os.path.join(directory, 'p')
        arguments = ['calculation', '--month_number', str(month), '--input_directory', directory, '--output_directory', output, '--iteration', str(ITERATION), '--start_year', str(case['start']), '--end_year', str(case['start'] + case['years'])]
        saved = sys.argv
        sys.argv = arguments
        try:
            cell_percentile_calculation.main()
        finally:
            sys.argv = saved
        expected = ['eustace_analysis_%d_percentiles_%02d%02d.npz' % (ITERATION, month, d.day) for d in days]
        require(sorted(os.listdir(output)) == expected, 'month %s: files %s', month, sorted(os.listdir(output)))
        for d, name in zip(days, expected):
            found = numpy.load(os.path.join(output, name))
            values = [x[other_year(d, y)] for y in range(case['start'], case['start'] + case['years'] + 1)]
            for block, q in (('lower_quartile_block', 25), ('median_block', 50), ('upper_quartile_block', 75)):
                require_close(found[block], numpy.percentile(values, q, axis=0), '%s of %s' % (block, name), 1e-9, 0)
    return True


# flag files and masks

@facet(st.fixed_dictionaries({'day': dates.map(str), 'seed': seeds, 'chance': st.sampled_from([0.2, 0.5, 0.9])}), quick=24, thorough=800, cost=2, shards=8)
def merging(case):
    """every flag of either file; the areal flag of the second stands for missing marine data"""
    d = day(case['day'])
    r = numpy.random.RandomState(case['seed'])
    a, b = random_flags(r, 65535, case['chance']), random_flags(r, 65535, case['chance'])
    with scratch() as directory:
        write_flags(os.path.join(directory, '1'), d, a)
        write_flags(os.path.join(directory, '2'), d, b)
        actual = merge_flag_files.merged_flags(os.path.join(directory, '1'), os.path.join(directory, '2'), directory, ITERATION, d)
        expected = a | (b & ~AREAL_LOW) | (b & AREAL_LOW != 0) * MARINE
        same(actual, expected, 'merged flags')
        expected[expected == 65535] = 0
        path = os.path.join(directory, 'new', 'place', 'flags.nc')
        apply_mask.save_flag_file(expected.astype(numpy.uint16), d, path)
        same(read_flags(path), expected, 'flags saved')
        f = netCDF4.Dataset(path)
        v = f.variables['tas_qc']
        described = dict(zip(v.flag_meanings.split(), [int(m) for m in v.flag_masks]))
        require(len(v.flag_meanings.split()) == len(v.flag_masks) == 16, 'flags described: %s names for %s bits', len(v.flag_meanings.split()), len(v.flag_masks))
        for name, bit in (('day_constraint', DAY), ('climatology_uncertainty_qc', CLIMATOLOGY), ('areal_low_value_qc', AREAL_LOW), ('extreme_high_value_qc', EXTREME_HIGH), ('marine_location_flag', MARINE), ('location_low_value_qc', LOCATION_LOW),
                          ('location_high_value_qc', LOCATION_HIGH), ('unconstrained_calendar_day_qc', UNCONSTRAINED)):
            require(described.get(name) == bit, 'bit of %s described as %s', name, described.get(name))
        require(float(f.variables['time'][0]) == (d - datetime.datetime(1850, 1, 1)).days, 'time of flag file %s', float(f.variables['time'][0]))
        f.close()
    return True


def rule_mask(f, rules):
    result = numpy.zeros(f.shape, bool)
    for wanted, forbidden in rules:
        result |= (f & wanted == wanted) & (f & forbidden == 0)
    return result


@st.composite
def rules(draw):
    result = []
    for _ in range(draw(st.integers(1, 5))):
        wanted = draw(st.sets(st.integers(0, 15), min_size=1, max_size=3))
        forbidden = draw(st.sets(st.integers(0, 15), max_size=3)) - wanted
        result.append([sum(1 << b for b in wanted), sum(1 << b for b in forbidden)])
    return {'rules': result, 'seed': draw(seeds), 'chance': draw(st.sampled_from([0.1, 0.5, 0.9]))}


@facet(rules(), quick=200, thorough=4000)
def masks(case):
    """some rule: these flags set and those not"""
    f = random_flags(numpy.random.RandomState(case['seed']), 65535, case['chance'])
    given = [[numpy.uint16(x) for x in rule] for rule in case['rules']]
    actual = apply_mask.compute_mask(f.astype(numpy.uint16).reshape(1, NY, NX), given)
    expected = rule_mask(f, case['rules'])
    require(actual.shape == (1, NY, NX), 'shape of mask %s', actual.shape)
    bad = numpy.argwhere(actual[0] != expected)
    require(not len(bad), 'mask is %s in cells with flags %s', not expected[tuple(bad[0])] if len(bad) else None, bin(int(f[tuple(bad[0])])) if len(bad) else None)
    return expected.any() and not expected.all()


RULES = [[UNCONSTRAINED, MARINE], [LARGE_SCALE, 0], [CLIMATOLOGY, 0], [AREAL_LOW, 0], [AREAL_HIGH, 0], [EXTREME_LOW, 0], [EXTREME_HIGH, 0], [LOCATION_LOW, 0], [LOCATION_HIGH, 0]]


def read(path, name):
    f = netCDF4.Dataset(path)
    v = f.variables[name][:].reshape(NY, NX)
    f.close()
    return numpy.ma.masked_array(v, numpy.ma.getmaskarray(v))


def products(r, directory, d, missing):
    """analysis and components of a day; returns {kind: [values, uncertainty, influence]} and members"""
    result = {}
    gone = r.rand(NY, NX) < (0.1 if missing else 0)
    for kind in ('analysis', 'climatology', 'large_scale', 'local'):
        x = r.normal(280 if kind in ('analysis', 'climatology') else 0, 3, (NY, NX))
        result[kind] = [numpy.ma.masked_array(v, gone) for v in (x, 0.1 + r.rand(NY, NX), r.rand(NY, NX) * 0.9)]
    order = list(r.permutation(12)[:3])
    members = [(int(k), numpy.ma.masked_array(r.normal(280, 3, (NY, NX)), gone)) for k in order]
    for kind, v in result.items():
        write_analysis(directory, kind, d, v[0].filled(-1e30), v[1].filled(-1e30), v[2].filled(-1e30), [(k, m.filled(-1e30)) for k, m in members] if kind == 'analysis' else ())
    return result, members


def examine(directory, d, contents, members, mask):
    out = {'analysis': os.path.join(directory, 'R001413', '20190405', 'global', '%04d' % d.year, 'tas_global_eustace_0_%s.nc' % stamp(d))}
    for kind in ('climatology', 'large_scale', 'local'):
        name = 'eustace_%s_component_%d' % (kind, ITERATION)
        out[kind] = os.path.join(directory, name, '%04d' % d.year, '%s_masked_%s.nc' % (name, stamp(d)))
    for kind, v in contents.items():
        main = 'tas' if kind in ('analysis', 'climatology') else 'tas_perturbation'
        pairs = list(zip((main, 'tasuncertainty', 'tasobservationinfluence'), v))
        if kind == 'analysis':
            pairs += [('tasensemble_%d' % k, m) for k, (_, m) in enumerate(sorted(members, key=lambda m: m[0]))]
        for name, e in pairs:
            a = read(out[kind], name)
            hidden = mask | numpy.ma.getmaskarray(e)
            bad = numpy.argwhere(a.mask != hidden)
            require(not len(bad), '%s of %s of %s: cell %s is %s', name, kind, stamp(d), tuple(bad[0]) if len(bad) else None, 'shown' if len(bad) and hidden[tuple(bad[0])] else 'hidden')
            require_close(a.data[~hidden], e.data[~hidden], '%s of %s of %s' % (name, kind, stamp(d)), 0, 0.0051)


@facet(st.fixed_dictionaries({'day': dates.map(str), 'seed': seeds, 'chance': st.sampled_from([0.05, 0.2, 0.5]), 'second': st.booleans(), 'missing': st.booleans()}), quick=16, thorough=500, cost=4, shards=8)
def masking(case):
    """the analysis and its components with the cells hidden to which a rule applies"""
    d = day(case['day'])
    r = numpy.random.RandomState(case['seed'])
    a, b = (random_flags(r, 65535 & ~UNCONSTRAINED, case['chance'] / 4) | (r.rand(NY, NX) < 0.4) * UNCONSTRAINED for _ in range(2))
    MAPS['coastal'] = coastline(r)
    rules = RULES + ([[MARINE, 0]] if d.year > 2012 else [])
    with scratch() as directory:
        contents, members = products(r, directory, d, case['missing'])
        write_flags(os.path.join(directory, '1'), d, a)
        write_flags(os.path.join(directory, '2'), d, b)
        apply_mask.apply_mask(directory, ITERATION, os.path.join(directory, '1'), os.path.join(directory, '2') if case['second'] else None, [[numpy.uint16(x) for x in rule] for rule in rules], d, os.path.join(directory, 'out'))
        f = (a | b if case['second'] else a) & ~MARINE | marine(MAPS['coastal'], lambda c: c > 95.0) * MARINE
        mask = rule_mask(f, rules)
        examine(os.path.join(directory, 'out'), d, contents, members, mask)
    return mask.any() and not mask.all()


@facet(st.fixed_dictionaries({'months': st.one_of(st.tuples(st.tuples(st.sampled_from([2013, 2014]), st.integers(0, 11)), st.tuples(st.sampled_from([2012, 2010]), st.integers(0, 11))), st.tuples(st.tuples(st.sampled_from([2012, 2010]), st.integers(0, 11)), st.tuples(st.sampled_from([2013, 2014]), st.integers(0, 11)))), 'seed': seeds}), quick=8, thorough=80, cost=12, shards=8)
def masked_months(case):
    """months masked one after the other, each by the rules of its year"""
    r = numpy.random.RandomState(case['seed'])
    MAPS['coastal'] = coastline(r)
    with scratch() as directory:
        wanted = []
        for year, month in case['months']:
            days = [datetime.datetime(year, month + 1, k + 1) for k in range(calendar.monthrange(year, month + 1)[1])]
            flags = random_flags(r, 65535 & ~UNCONSTRAINED, 0.05) | (r.rand(NY, NX) < 0.4) * UNCONSTRAINED
            contents, members = products(r, directory, days[0], False)
            write_flags(os.path.join(directory, '1'), days[0], flags)
            for d in days[1:]:
                for path in [analysis_path(directory, kind, days[0]) for kind in contents] + [flag_path(os.path.join(directory, '1'), days[0])]:
                    os.link(path, path.replace(stamp(days[0]), stamp(d)))
            apply_mask.masking_operation('%04d-01-01' % year, month, directory, ITERATION, os.path.join(directory, '1'), None, os.path.join(directory, 'out'))
            f = flags & ~MARINE | marine(MAPS['coastal'], lambda c: c > 95.0) * MARINE
            mask = rule_mask(f, RULES + ([[MARINE, 0]] if year > 2012 else []))
            for d in (days[0], days[int(r.randint(len(days)))], days[-1]):
                examine(os.path.join(directory, 'out'), d, contents, members, mask)
    return True


# months

@facet(st.fixed_dictionaries({'start': st.integers(1850, 2015), 'years': st.integers(0, 3), 'index': st.integers(0, 1999)}), quick=200, thorough=3000)
def months(case):
    """the operations of a period cover each of its days once"""
    n = operation_count.operation_count(case['start'], case['start'] + case['years'])
    found = [d for k in range(n) for d in operation_count.operation_dates(datetime.datetime(case['start'], 1, 1), k)]
    first = datetime.datetime(case['start'], 1, 1)
    expected = [first + datetime.timedelta(days=k) for k in range((datetime.datetime(case['start'] + case['years'] + 1, 1, 1) - first).days)]
    require(found == expected, 'days of %s to %s: %s in %s operations instead of %s, first difference %s', case['start'], case['start'] + case['years'], len(found), n, len(expected),
            next((str(a) for a, b in zip(found, expected) if a != b), None))
    return case['years'] > 0


@facet(st.fixed_dictionaries({'month': st.integers(0, 11), 'year': st.sampled_from([1880, 2000, 2012, 2013]), 'seed': seeds}), quick=2, thorough=40, cost=30, shards=2)
def histories(case):
    """a month taken through all checks, day by day, in files"""
    r = numpy.random.RandomState(case['seed'])
    reference = '%04d-01-01' % case['year']
    first = datetime.datetime(case['year'], case['month'] + 1, 1)
    days = [first + datetime.timedelta(days=k) for k in range(calendar.monthrange(case['year'], case['month'] + 1)[1])]
    MAPS['coastal'] = coastline(r)
    zero = numpy.zeros((NY, NX))
    limits = [0.5, 0.4, 0.6]
    with scratch() as directory:
        a, t, w, c, o, p, m = (os.path.join(directory, x) for x in ('analysis', 'threshold', 'window', 'calendar', 'other', 'persistant', 'merged'))
        current = {}
        for d in days:
            unc, unl, influence = smooth(r, 0.1, 0.3), smooth(r, 0.1, 0.2), smooth(r, 0.4, 0.6)
            write_analysis(a, 'climatology', d, zero, unc)
            write_analysis(a, 'large_scale', d, zero, unl)
            write_analysis(a, 'analysis', d, zero, zero, influence)
            current[d] = expected_thresholds(unc, unl, influence, limits, MAPS['coastal'])
        threshold_check.flagging_operation(reference, case['month'], a, ITERATION, t, limits[0], limits[1], limits[2])
        for d in days:
            same(read_flags(flag_path(t, d)), current[d][0], 'thresholds of %s' % stamp(d), current[d][1])
        # (from here on from the flags in the files, so that cells near thresholds do not matter)
        f = {d: read_flags(flag_path(t, d)) for d in days}
        window_check.flagging_operation(reference, case['month'], t, ITERATION, w, 2, 1, window_check.DAY_FLAG)
        for d in days:
            before, after = (sum([(f[e] & DAY == 0).astype(int) for e in (d + datetime.timedelta(days=s * k) for k in (1, 2)) if e in f], numpy.zeros((NY, NX), int)) for s in (-1, 1))
            same(read_flags(flag_path(w, d)), f[d] | (before < 1) * PRIOR_WINDOW | (after < 1) * POST_WINDOW, 'window of %s' % stamp(d))
        f = {d: read_flags(flag_path(w, d)) for d in days}
        calendar_check.flagging_operation(reference, case['month'], w, ITERATION, c, case['year'], case['year'])
        g = {}
        for d in days:
            f[d] = f[d] | PRIOR_CALENDAR | POST_CALENDAR | UNCONSTRAINED
            same(read_flags(flag_path(c, d)), f[d], 'calendar of %s' % stamp(d))
            g[d] = random_flags(r, AREAL_HIGH, 0.3) & ~PERSISTANT
            write_flags(o, d, g[d])
        outlier_window_check.flagging_operation(reference, case['month'], o, ITERATION, p, 1, 2)
        for d in days:
            bad = sum([(g[e] & (AREAL_LOW | AREAL_HIGH | EXTREME_LOW | EXTREME_HIGH) != 0).astype(int) for e in (d + datetime.timedelta(days=s) for s in (-1, 0, 1)) if e in g], numpy.zeros((NY, NX), int))
            same(read_flags(flag_path(p, d)), g[d] | (bad >= 2) * PERSISTANT, 'persistence of %s' % stamp(d))
        merge_flag_files.merging_operation(reference, case['month'], ITERATION, p, c, m)
        for d in days:
            q = read_flags(flag_path(p, d))
            merged = q | (f[d] & ~AREAL_LOW) | (f[d] & AREAL_LOW != 0) * MARINE
            same(read_flags(flag_path(m, d)), merged, 'merged flags of %s' % stamp(d), merged != 65535)
        contents = {d: products(r, a, d, False) for d in days}
        apply_mask.masking_operation(reference, case['month'], a, ITERATION, m, p, os.path.join(directory, 'out'))
        for d in days:
            # calendar flags hide all but marine cells
            x = (read_flags(flag_path(m, d)) | read_flags(flag_path(p, d))) & ~MARINE | marine(MAPS['coastal'], lambda k: k > 95.0) * MARINE
            examine(os.path.join(directory, 'out'), d, contents[d][0], contents[d][1], rule_mask(x, RULES + ([[MARINE, 0]] if d.year > 2012 else [])))
    return True
