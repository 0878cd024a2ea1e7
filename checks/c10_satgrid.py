"""Cases: grids of 1 to 6 by 1 to 6 cells with start, cell size and wrap, or ending at the pole; up to 4 files of up to 6 by 6 pixels with coordinates on cell
edges, at the poles and the date line, quality flags and filters, missing pixels, invalid coordinates, missing and unreadable
files; the same pixels dealt out to files in another order. Oracle: statistics of each cell computed in double precision
from the list of its accepted pixels. Run for the NumPy/C gridding (fields, and file through its command) and for the iris
pipeline. A case is non-trivial when a cell has at least two accepted observations."""

import os
import warnings

import netCDF4
import numpy
from hypothesis import strategies as st
from harness import facet, require, require_close, scratch, raises
from support import record_iris_saver

from eustace.satgrid import aggregate_grid, command as satgrid_command
from eustace.satgrid.file_aggregate_grid import SatelliteFileAggregator
from eustace.satgrid.grid import GridAxis, GridLatLon
from eustace.satgrid.satellite_file import SatelliteFilename
from eustace.satgrid_iris import command as iris_command
from eustace.satgrid_iris.gridbin.gridbin import GridBins
from eustace.satgrid_iris.gridbin.gridfieldlist import GridFieldAxis
from eustace.satgrid_iris.modis import SatelliteFieldNamesMODIS
from eustace.satgrid_iris.pipeline import GridBinPipelineSatellite
from eustace.satgrid_iris.satellite import SatelliteFilenames

warnings.simplefilter('ignore')
written = record_iris_saver()
ERRORVALUE = -32768.0


class Args(object):
    def __init__(self, **kwargs):
        self.__dict__.update(kwargs)


# ------------------------------------------------------------------ axes

@st.composite
def axis_cases(draw):
    dyadic = draw(st.booleans())
    step = draw(st.sampled_from([0.25, 0.5, 1.0, 2.0])) if dyadic else draw(st.sampled_from([0.1, 0.05, 0.3, 1.0 / 3.0, 0.01]))
    count = draw(st.integers(1, 12))
    start = draw(st.integers(-40, 20)) * step
    inside = st.one_of(st.floats(0.001, count - 0.001), st.integers(0, count - 1).map(float), st.integers(0, count - 1).map(lambda k: k + 0.999))
    outside = st.one_of(st.floats(-3, -0.001), st.floats(count + 0.001, count + 3), st.sampled_from([-0.5, -0.01, -1.0, -1.5, float(count), count + 0.5]))
    values = draw(st.lists(inside, min_size=1, max_size=8))
    if draw(st.integers(0, 2)) == 0:
        values.insert(draw(st.integers(0, len(values))), draw(outside))
    return {'start': start, 'step': step, 'count': count, 'values': values, 'dyadic': dyadic, 'wrap': draw(st.booleans()), 'float32': draw(st.booleans())}


@facet(axis_cases(), quick=1500, thorough=20000)
def axis_cells(case):
    """non-trivial: a value outside the axis, or one on a cell edge"""
    start, step, count = case['start'], case['step'], case['count']
    values = numpy.array([start + step * v for v in case['values']], numpy.float32 if case['float32'] else numpy.float64)
    slack = 0.0 if case['dyadic'] else (1e-9 if not case['float32'] else 1e-5 / step)
    for axis in (GridAxis(start, step, count, case['wrap']), GridFieldAxis(start - 0.5 * step, step, count, 'x', case['wrap'])):
        positions = (values.astype(float) - start) / step
        out = [p for p in positions if p < -slack - 1e-6 or p >= count + slack + (1 if case['wrap'] else 0)]
        unclear = [p for p in positions if not (slack <= p < count - slack) and p not in out and not (case['wrap'] and count + slack <= p < count + 1 - slack) and not (case['dyadic'] and p >= 0 and p < count)]
        try:
            result = axis.compute_indices(values.copy())
        except ValueError:
            require(out or unclear, '%s refuses values inside: %s', type(axis).__name__, values.tolist())
            continue
        require(not out, '%s accepts values outside the axis: %s gives %s', type(axis).__name__, values.tolist(), result.tolist())
        for p, i in zip(positions, result.tolist()):
            require(0 <= i < count, 'index %s outside the axis', i)
            # at the end of an axis that wraps around, rounding may choose the last cell or the first
            places = [p] + ([p - count] if p >= count - slack else [])
            require(any(i - slack <= x < i + 1 + slack for x in places) or (p < 0 and i == 0), '%s puts position %r in cell %d', type(axis).__name__, p, i)
    if not case['wrap']:
        require_close(GridAxis(start, step, count).get_points(), start + step * numpy.arange(count), 'axis points')
        require_close(GridAxis(start, step, count).get_centres(), start + step * (numpy.arange(count) + 0.5), 'axis centres')
    return any(v != int(v) and (v < 0 or v > count) for v in case['values']) or any(v == int(v) for v in case['values'])


# ------------------------------------------------------------------ pixels and files

@st.composite
def swaths(draw, iris=False):
    polar = draw(st.integers(0, 2)) == 0
    ys, xs = draw(st.sampled_from([0.25, 0.5, 2.0])), draw(st.sampled_from([0.25, 0.5, 2.0]))
    yn, xn = draw(st.integers(1, 6)), draw(st.integers(1, 6))
    y0 = 90.0 - ys * yn if polar else draw(st.integers(-30, 10)) * ys
    around = draw(st.booleans())
    if around:
        xn, xs, x0 = 6, 60.0, -180.0
    else:
        x0 = draw(st.integers(-30, 10)) * xs
    wrap = draw(st.booleans()) if not around else True
    lat = st.one_of(st.integers(0, yn * 4 - 1).map(lambda k: y0 + ys * k / 4.0), st.integers(0, yn - 1).map(lambda k: y0 + ys * k), st.just(90.0) if polar else st.nothing(),
                    st.integers(0, yn - 1).map(lambda k: y0 + ys * (k + 0.984375)))
    lon = st.one_of(st.integers(0, xn * 4 - 1).map(lambda k: x0 + xs * k / 4.0), st.integers(0, xn - 1).map(lambda k: x0 + xs * k), st.just(x0 + xs * xn) if around else st.nothing())
    mask_valid = draw(st.sampled_from([7, 3, 1, 0x24, 0xFF, 0x10007, 0x40000003]))
    filter_valid = mask_valid & draw(st.sampled_from([0, 0, 1, 4, 2]))
    mask_obs = mask_valid & draw(st.sampled_from([1, 0xFF, 4, 0]))
    qc = st.sampled_from([filter_valid, filter_valid, filter_valid, filter_valid | (~mask_valid & 0x8), filter_valid ^ 1, filter_valid ^ 2, filter_valid ^ 4, filter_valid ^ 0x10000, filter_valid ^ 0x40000000, 0, 7, 255])
    temperature = st.one_of(st.floats(200, 330, width=32), st.sampled_from([273.0, 273.5, 280.25]))
    uncertainty = st.floats(0, 3, width=32)
    files = []
    few = draw(st.booleans())
    places = [(draw(lat), draw(lon)) for _ in range(draw(st.integers(1, 4)))]
    for _ in range(draw(st.sampled_from([1, 2, 3, 4] * 4 + [14, 17]))):
        n = draw(st.integers(1, 12))
        pixels = []
        for _ in range(n):
            a, o = draw(st.sampled_from(places)) if few else (draw(lat), draw(lon))
            p = {'lat': a, 'lon': o, 'qc': draw(qc), 'lst': draw(temperature), 'u': [draw(uncertainty) for _ in range(3)], 'missing': 0}
            if iris:
                p['missing'] = draw(st.sampled_from([0, 0, 0, 0, 1, 2]))
                if draw(st.integers(0, 12)) == 0:
                    p['lat' if draw(st.booleans()) else 'lon'] = ERRORVALUE
            pixels.append(p)
        if draw(st.integers(0, 11)) == 0:
            pixels = [dict(p) for p in pixels * 60]
        files.append({'pixels': pixels, 'sys': draw(uncertainty), 'state': draw(st.sampled_from(['ok'] * 8 + ['missing', 'noaux', 'broken']))})
    return {'args': {'y0': y0, 'ys': ys, 'yn': yn, 'x0': x0, 'xs': xs, 'xn': xn, 'wrapcoords': wrap, 'qc_mask_obs': mask_obs, 'qc_filter_obs': filter_valid & mask_obs,
                     'qc_mask_valid': mask_valid, 'qc_filter_valid': filter_valid, 'obsname': 'LST', 'maxbinobs': 512}, 'files': files, 'order': draw(st.integers(0, 2 ** 31))}


def cell(args, pixel):
    out = []
    for v, start, step, count in ((pixel['lat'], args['y0'], args['ys'], args['yn']), (pixel['lon'], args['x0'], args['xs'], args['xn'])):
        i = int(numpy.floor((v - start) / step))
        out.append(i)
    if out[0] == args['yn'] and pixel['lat'] == 90.0:
        out[0] -= 1
    if out[1] == args['xn'] and args['wrapcoords']:
        out[1] = 0
    return tuple(out)


def oracle(case):
    """Per cell: accepted values, uncertainties; number of observations of interest."""
    args, cells, total = case['args'], {}, {}
    for f in case['files']:
        if f['state'] != 'ok':
            continue
        for p in f['pixels']:
            if ERRORVALUE in (p['lat'], p['lon']):
                continue
            c = cell(args, p)
            if (p['qc'] & args['qc_mask_obs']) == args['qc_filter_obs']:
                total[c] = total.get(c, 0) + 1
            if (p['qc'] & args['qc_mask_valid']) == args['qc_filter_valid'] and not p['missing']:
                cells.setdefault(c, []).append((numpy.float32(p['lst']), [numpy.float32(u) for u in p['u']] + [numpy.float32(f['sys'])]))
    return cells, total


def write_file(name, f, latname, lonname):
    """Pixels laid out in one row of a swath; names of the LST and auxiliary file."""
    lst_name, aux_name = name + '.lst.nc', name + '.aux.nc'
    if f['state'] == 'missing':
        return lst_name, aux_name
    n = len(f['pixels'])
    rows = 2 if n and n % 2 == 0 else 1
    shape = (rows, n // rows)
    pixels = f['pixels']
    column = lambda key, kind: numpy.array([p[key] for p in pixels], kind).reshape(shape)
    with netCDF4.Dataset(lst_name, 'w') as nc:
        nc.createDimension('nj', shape[0])
        nc.createDimension('ni', shape[1])
        nc.createVariable(latname, 'f4', ('nj', 'ni'))[:] = column('lat', 'f4')
        nc.createVariable(lonname, 'f4', ('nj', 'ni'))[:] = column('lon', 'f4')
        nc.createVariable('LST', 'f4', ('nj', 'ni'))[:] = numpy.ma.masked_array(column('lst', 'f4'), column('missing', int) == 1)
        nc.createVariable('QC', 'i4', ('nj', 'ni'))[:] = column('qc', 'i4')
    if f['state'] == 'broken':
        with open(lst_name, 'wb') as stream:
            stream.write(b'not a file of data')
    if f['state'] != 'noaux':
        with netCDF4.Dataset(aux_name, 'w') as nc:
            nc.createDimension('ns', 1)
            nc.createDimension('nj', shape[0])
            nc.createDimension('ni', shape[1])
            nc.createVariable('LST_unc_sys', 'f4', ('ns',))[:] = f['sys'] if f['sys'] is not None else numpy.ma.masked_all((1,), 'f4')
            for k, u in enumerate(['ran', 'loc_atm', 'loc_sfc']):
                nc.createVariable('LST_unc_' + u, 'f4', ('nj', 'ni'))[:] = numpy.ma.masked_array(numpy.array([p['u'][k] for p in pixels], 'f4').reshape(shape), (column('missing', int) == 2) & (k == 1))
    return lst_name, aux_name


def statistics(values, n_total):
    x = numpy.array([v[0] for v in values], float)
    u = numpy.array([v[1] for v in values], float)
    n = len(x)
    result = {'tsmean': x.mean(), 'tsmin': x.min(), 'tsmax': x.max(), 'ts_number_of_observations': n,
              'tsmean_unc_ran': numpy.sqrt((u[:, 0] ** 2).sum()) / n, 'tsmean_unc_loc_atm': numpy.sqrt((u[:, 1] ** 2).mean()),
              'tsmean_unc_loc_sfc': numpy.sqrt((u[:, 2] ** 2).mean()), 'tsmean_unc_sys': numpy.sqrt((u[:, 3] ** 2).mean())}
    if n > 1:
        variance = x.var(ddof=1)
        result['tsvariance'] = variance
        result['tsmean_unc_spl'] = (n_total - n) * numpy.sqrt(variance) / (n_total - 1)
    return result


NAMES = ['tsmean', 'tsmin', 'tsmax', 'tsmean_unc_ran', 'tsmean_unc_loc_atm', 'tsmean_unc_loc_sfc', 'tsmean_unc_sys', 'tsvariance', 'tsmean_unc_spl']


def check_fields(case, get, what, packed=False):
    cells, total = oracle(case)
    shape = (case['args']['yn'], case['args']['xn'])
    stats = {c: statistics(v, total[c]) for c, v in cells.items()}
    count = numpy.zeros(shape, int)
    observed = numpy.zeros(shape, int)
    for c, v in cells.items():
        count[c] = len(v)
    for c, v in total.items():
        observed[c] = v
    require(numpy.array_equal(get('ts_number_of_observations').filled(0), count), '%s: numbers of observations %s, expected %s', what, get('ts_number_of_observations').filled(0).tolist(), count.tolist())
    require(numpy.array_equal(get('total_number_of_observations').filled(0), observed), '%s: total numbers of observations %s, expected %s', what, get('total_number_of_observations').filled(0).tolist(), observed.tolist())
    for name in NAMES:
        data = get(name)
        require(data.shape == shape, '%s: %s has shape %s', what, name, data.shape)
        mask = numpy.ma.getmaskarray(data)
        want = numpy.array([[name not in stats.get((i, j), {}) for j in range(shape[1])] for i in range(shape[0])])
        require(numpy.array_equal(mask, want), '%s: %s has values at %s, expected at %s', what, name, numpy.argwhere(~mask).tolist(), numpy.argwhere(~want).tolist())
        for c, s in stats.items():
            if name in s:
                step = {'tsmean': 0.005, 'tsmin': 0.005, 'tsmax': 0.005, 'tsvariance': 5e-6}.get(name, 0.001) if packed else 0
                exact = 0.0 if name in ('tsmin', 'tsmax') else (2e-3 if name == 'tsmean' else 2e-3 * (1 + s.get('tsvariance', 0) ** 0.5))
                if packed and name == 'tsvariance':
                    exact += 1e-3
                require_close(data[c], s[name], '%s: %s of cell %s' % (what, name, c), rtol=1e-5 if exact else 0, atol=exact + 0.51 * step)
    return any(len(v) > 1 for v in cells.values())


def deal(case):
    """The same observations in files of another order (of pixels and of files)."""
    state = numpy.random.RandomState(case['order'])
    files = [case['files'][i] for i in state.permutation(len(case['files']))]
    files = [dict(f, pixels=[f['pixels'][i] for i in state.permutation(len(f['pixels']))]) for f in files]
    out = []
    for f in files:
        if f['state'] == 'ok' and len(f['pixels']) > 1:
            k = int(state.randint(1, len(f['pixels'])))
            out += [dict(f, pixels=f['pixels'][:k]), dict(f, pixels=f['pixels'][k:])]
        else:
            out.append(f)
    return dict(case, files=out)


STATUS = {'ok': 'ok', 'missing': 'missing', 'noaux': 'missing', 'broken': 'error'}


@facet(swaths(), quick=400, thorough=6000, shards=4)
def gridding(case):
    for variant in (case, deal(case)):
        with scratch() as directory:
            names = [SatelliteFilename(*write_file(os.path.join(directory, 'f%d' % k), f, 'lat', 'lon')) for k, f in enumerate(variant['files'])]
            result = SatelliteFileAggregator.from_command_arguments(Args(**variant['args'])).run(names)
        require([r.status for r in result.load] == [STATUS[f['state']] for f in variant['files']], 'load results %s', [r.status for r in result.load])
        if not any(f['state'] == 'ok' for f in variant['files']):
            require(result.fields is None, 'fields are made without any file')
            return False
        a = variant['args']
        require_close(result.fields['latitude'], a['y0'] + a['ys'] * (numpy.arange(a['yn']) + 0.5), 'latitudes', atol=1e-5)
        require_close(result.fields['longitude'], a['x0'] + a['xs'] * (numpy.arange(a['xn']) + 0.5), 'longitudes', atol=1e-5)
        deep = check_fields(variant, lambda name: numpy.ma.masked_array(result.fields[name], (result.fields[name] == -1.0) if name in NAMES else False), 'fields')
    return deep


@facet(swaths(), quick=80, thorough=1500, shards=2)
def gridding_command(case):
    with scratch() as directory:
        for k, f in enumerate(case['files']):
            write_file(os.path.join(directory, '20010203_%02d%02d' % (k * 5 // 60, k * 5 % 60)), f, 'lat', 'lon')
        args = Args(o=os.path.join(directory, 'out.nc'), source='s', complevel=4, path=directory, pattern_lst='%Y%m%d_%H%M.lst.nc', pattern_aux='%Y%m%d_%H%M.aux.nc', date='20010203', **case['args'])
        if case['order'] % 4 == 0:
            # one time of the day alone
            which = case['order'] % len(case['files'])
            args.date = '20010203%02d%02d' % (which * 5 // 60, which * 5 % 60)
            case = dict(case, files=[case['files'][which]])
        result = satgrid_command.run(args)
        found = any(f['state'] == 'ok' for f in case['files'])
        require(result.output_status == ('ok' if found else 'no_data'), 'status %s', result.output_status)
        require(len(result.load) == (288 if len(args.date) == 8 else 1), '%d times of %s were looked for', len(result.load), args.date)
        if not found:
            require(not os.path.exists(args.o), 'a file is written without data')
            return False
        with netCDF4.Dataset(args.o) as nc:
            return check_fields(case, lambda name: numpy.ma.masked_array(nc.variables[name][:]), 'file', packed=True)


@facet(swaths(iris=True), quick=160, thorough=2500, shards=6, cost=2)
def iris_pipeline(case):
    for variant in (case, deal(case)):
        with scratch() as directory:
            names = [SatelliteFilenames(write_file(os.path.join(directory, 'f%d' % k), f, 'latitude', 'longitude')) for k, f in enumerate(variant['files'])]
            pipeline = GridBinPipelineSatellite.from_command_arguments(Args(**variant['args']))
            result = pipeline.run(SatelliteFieldNamesMODIS(), Args(filenames=names))
            require([r.status for r in result.load] == [STATUS[f['state']] for f in variant['files']], 'load results %s %s', [r.status for r in result.load], [r.message for r in result.load])
            if not any(f['state'] == 'ok' for f in variant['files']):
                require(len(pipeline.bins) == 0, 'fields are made without any file')
                return False
            require(sorted(c.var_name for c in pipeline.bins) == sorted(NAMES + ['ts_number_of_observations', 'total_number_of_observations']), 'fields are %s', [c.var_name for c in pipeline.bins])
            deep = check_fields(variant, lambda name: numpy.ma.masked_array(pipeline.bins.get_field(name).data), 'iris')
    return deep


@facet(swaths(iris=True), quick=30, thorough=300, shards=2)
def iris_command_run(case):
    with scratch() as directory:
        for k, f in enumerate(case['files']):
            write_file(os.path.join(directory, '20010203_%02d%02d' % (23 - k, 55)), f, 'latitude', 'longitude')
        args = Args(o=os.path.join(directory, 'out.nc'), source='s', complevel=4, path=directory, pattern_lst='%Y%m%d_%H%M.lst.nc', pattern_aux='%Y%m%d_%H%M.aux.nc', date='20010203', **case['args'])
        if case['order'] % 4 == 0:
            which = case['order'] % len(case['files'])
            args.date = '20010203%02d55' % (23 - which)
            case = dict(case, files=[case['files'][which]])
        result = iris_command.run(args)
        found = any(f['state'] == 'ok' for f in case['files'])
        require(result.output_status == ('ok' if found else 'no_data'), 'status %s', result.output_status)
        if not found:
            require(args.o not in written, 'a file is written without data')
            return False
        cubes = written.pop(args.o)
        return check_fields(case, lambda name: numpy.ma.masked_array(cubes[name].data), 'iris command')


@st.composite
def misplaced(draw):
    case = draw(swaths())
    a = case['args']
    k = draw(st.booleans())
    away = draw(st.sampled_from([0.25, 0.5, 0.984375, 1.5]))
    case['files'] = [{'pixels': [], 'sys': 0.5, 'state': 'ok'}] + [dict(f, state='ok') for f in case['files']]
    p = {'lat': a['y0'], 'lon': a['x0'], 'qc': a['qc_filter_valid'], 'lst': 280.0, 'u': [1.0, 1.0, 1.0], 'missing': 0}
    if draw(st.booleans()):
        p['lat'] = a['y0'] - away * a['ys'] if k or a['y0'] + a['ys'] * a['yn'] == 90 else a['y0'] + a['ys'] * (a['yn'] + (away if away != 0.25 else 0.0))
    else:
        p['lon'] = a['x0'] - away * a['xs'] if k else a['x0'] + a['xs'] * (a['xn'] + 1 + away)
    case['files'][0]['pixels'] = [p]
    case['rejected'] = draw(st.booleans())
    if case['rejected']:
        if a['qc_mask_valid'] & 1 and a['qc_mask_obs'] & 1:
            p['qc'] ^= 1
        else:
            case['rejected'] = False
    return case


@facet(misplaced(), quick=80, thorough=1000, shards=2)
def outside_the_grid(case):
    """non-trivial: always (a pixel outside of the grid, accepted or not by its quality flag)"""
    with scratch() as directory:
        names = [write_file(os.path.join(directory, 'f%d' % k), f, 'lat', 'lon') for k, f in enumerate(case['files'])]
        one = lambda: SatelliteFileAggregator.from_command_arguments(Args(**case['args'])).run([SatelliteFilename(*n) for n in names])
        require(raises(ValueError, one) != case['rejected'], 'gridding: a pixel outside of the grid is %s', 'refused though not of interest' if case['rejected'] else 'accepted')
    with scratch() as directory:
        names = [write_file(os.path.join(directory, 'f%d' % k), f, 'latitude', 'longitude') for k, f in enumerate(case['files'])]
        two = lambda: GridBinPipelineSatellite.from_command_arguments(Args(**case['args'])).run(SatelliteFieldNamesMODIS(), Args(filenames=[SatelliteFilenames(n) for n in names]))
        require(raises(ValueError, two) != case['rejected'], 'iris: a pixel outside of the grid is %s', 'refused though not of interest' if case['rejected'] else 'accepted')


@facet(st.fixed_dictionaries({'case': swaths(iris=True), 'which': st.integers(0, 3), 'empty': st.booleans()}), quick=40, thorough=600, shards=2)
def missing_uncertainty(case):
    """a file whose systematic uncertainty is missing is an error, unless it has no pixel with data: non-trivial when another file has data"""
    case, which, empty = case['case'], case['which'], case['empty']
    which %= len(case['files'])
    f = case['files'][which] = dict(case['files'][which], state='ok', sys=None)
    f['pixels'] = [dict(p, missing=1 if empty else p['missing']) for p in f['pixels']]
    if not f['pixels']:
        return False
    with scratch() as directory:
        names = [SatelliteFilenames(write_file(os.path.join(directory, 'f%d' % k), f, 'latitude', 'longitude')) for k, f in enumerate(case['files'])]
        pipeline = GridBinPipelineSatellite.from_command_arguments(Args(**case['args']))
        result = pipeline.run(SatelliteFieldNamesMODIS(), Args(filenames=names))
        expected = [STATUS[f['state']] for f in case['files']]
        if any(not p['missing'] for p in f['pixels']):
            expected[which] = 'error'
            case['files'][which] = dict(f, state='broken')
        else:
            case['files'][which] = dict(f, sys=0.0)
        require([r.status for r in result.load] == expected, 'load results %s, expected %s', [r.status for r in result.load], expected)
        if 'ok' not in expected:
            require(len(pipeline.bins) == 0, 'fields are made without any file')
            return False
        check_fields(case, lambda name: numpy.ma.masked_array(pipeline.bins.get_field(name).data), 'iris')
    return any(s == 'ok' for k, s in enumerate(expected) if k != which)


@facet(st.lists(st.integers(1, 4), min_size=1, max_size=5), quick=100, thorough=500)
def dimensions(case):
    """grids are of latitude and longitude, perhaps at one time: non-trivial with three axes"""
    axes = [GridFieldAxis(0.0, 1.0, n, 'axis%d' % k, False) for k, n in enumerate(case)]
    fits = len(case) == 2 or (len(case) == 3 and case[0] == 1)
    require(raises(ValueError, GridBins, axes) != fits, 'a grid of %s cells is %s', case, 'refused' if fits else 'accepted')
    return len(case) == 3


# ------------------------------------------------------------------ in-memory aggregation

@st.composite
def batches(draw):
    shape = [draw(st.integers(1, 4)), draw(st.integers(1, 4))]
    n = shape[0] * shape[1]
    value = st.one_of(st.floats(-20, 330, width=32), st.sampled_from([0.0, -1.0, 273.15]))
    row = st.tuples(st.integers(0, n - 1), value, st.floats(0, 2, width=32), st.floats(0, 2, width=32), st.floats(0, 2, width=32))
    return {'shape': shape, 'batches': [{'rows': [list(r) for r in draw(st.lists(row, max_size=10))], 'sys': draw(st.floats(0, 2, width=32))} for _ in range(draw(st.integers(1, 3)))], 'limit': draw(st.sampled_from([2, 4, 40]))}


@facet(batches(), quick=400, thorough=6000)
def aggregation_in_memory(case):
    shape, limit = tuple(case['shape']), case['limit']
    flag = -999.0
    per = {}
    for b in case['batches']:
        for r in b['rows']:
            per.setdefault((r[0] // shape[1], r[0] % shape[1]), []).append((r[1], list(r[2:]) + [b['sys']]))
    for kind in ('array', 'fast'):
        grid = aggregate_grid.AggregateGridArray(shape, limit) if kind == 'array' else aggregate_grid.AggregateGridCountSumMinMax(shape)
        full = kind == 'array' and any(len(v) > limit for v in per.values())

        def feed():
            for b in case['batches']:
                columns = [numpy.array([r[k] for r in b['rows']], 'f4') for k in range(1, 5)]
                if b['rows'] or kind == 'fast':
                    grid.aggregate_at_indices(numpy.array([r[0] for r in b['rows']], 'i4'), columns[0], columns[1], columns[2], columns[3], numpy.float32(b['sys']))
        if full:
            require(raises((ValueError, IndexError), feed), 'more observations than there is room for are accepted')
            continue
        feed()
        fields = grid.compute_fields(flag)
        for name in NAMES[:7] + ['ts_number_of_observations']:
            for i in range(shape[0]):
                for j in range(shape[1]):
                    if (i, j) in per:
                        want = statistics(per[(i, j)], 100)[name]
                    else:
                        want = 0 if name == 'ts_number_of_observations' else flag
                    require_close(fields[name][i, j], want, '%s %s of %s' % (kind, name, (i, j)), rtol=2e-5, atol=2e-3)
    count, total = aggregate_grid.AggregateGridCount(shape), aggregate_grid.AggregateGridSum(shape)
    for b in case['batches']:
        indices = numpy.array([r[0] for r in b['rows']], 'i4')
        count.aggregate_at_indices(indices)
        if b['rows']:
            total.aggregate_at_indices(indices, numpy.array([r[1] for r in b['rows']], 'f4'))
    mean = total.get_mean(flag)
    for i in range(shape[0]):
        for j in range(shape[1]):
            here = [v[0] for v in per.get((i, j), [])]
            require(count.count[i, j] == len(here) == total.count[i, j], 'count of %s', (i, j))
            require_close(mean[i, j], numpy.mean(here) if here else flag, 'mean of %s' % ((i, j),), rtol=2e-5, atol=2e-3)
    return any(len(v) > 1 for v in per.values())
