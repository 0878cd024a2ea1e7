"""Cases: grids of 1 to 6 by 1 to 8 cells (dyadic cell sizes so that cell edges are exact) or the global quarter-degree
grid, 1 to 30 locations including cell edges, poles and the date line, up to 60 observations per source with masks,
other days and repeated locations, given in two orders and splits; the combination of up to 3 sources read from raw
binary files, empty ones included (what it hands to the NetCDF writer, which does not work with the iris installed here). Oracle: the statistics of each cell computed directly from the list of its observations. A case is non-trivial
when some cell has at least two observations."""

import os
import uuid

import numpy
from hypothesis import strategies as st
from harness import facet, require, require_close, scratch, raises
from support import python2_binary_files, record_iris_saver

from eustace.analysis import diagnostic_combine
from eustace.analysis.diagnosticgrid import DiagnosticGridBins, DiagnosticGridObservationConnector
from eustace.analysis.fileio import observationsource_rawbinary as raw
from eustace.analysis.observationsource import Observations, ObservationSource
from eustace.outputformats.globalfield import GlobalFieldAxes2D, GlobalFieldAxes2DWithTime
from eustace.satgrid_iris.gridbin.gridfieldlist import GridFieldAxis
from eustace.timeutils.epoch import epoch_plus_days

python2_binary_files()
written = record_iris_saver()


@st.composite
def local_grids(draw):
    step = [draw(st.sampled_from([0.25, 0.5, 1.0, 5.0, 8.0])) for _ in range(2)]
    count = [draw(st.integers(1, 6)), draw(st.integers(1, 8))]
    start = [draw(st.integers(-12, 4)) * step[0], draw(st.integers(-12, 4)) * step[1]]
    return {'start': start, 'step': step, 'count': count, 'circular': draw(st.booleans())}


def coordinate(start, step, count, closed):
    cells = st.one_of(st.floats(0, count, exclude_max=not closed), st.integers(0, count - (0 if closed else 1)).map(float),
                      st.integers(1, count).map(lambda k: k - 1e-9))
    return cells.map(lambda c: start + step * c).filter(lambda v: v < start + step * count or closed)


rows = st.lists(st.tuples(st.integers(0, 29), st.one_of(st.floats(-50, 400, width=32), st.floats(-50, 400, width=32), st.floats(-50, 400, width=32), st.floats(-30000, 30000, width=32)), st.one_of(st.floats(0.015625, 50, width=32), st.floats(0.015625, 50, width=32), st.floats(0.015625, 1000, width=32)), st.sampled_from([False, False, False, True]),
                          st.sampled_from([0, 0, 0, 0, 0.5, 0.75, 0.99951171875, 1, -1, -0.5, -0.00048828125])), max_size=60)


@st.composite
def local_cases(draw):
    kind = draw(st.sampled_from(['local', 'local', 'local', 'global', 'globaltime']))
    grid = draw(local_grids())
    if kind != 'local':
        grid = {'start': [-90.0, -180.0], 'step': [0.25, 0.25], 'count': [720, 1440], 'circular': True}
    locations = [[draw(coordinate(grid['start'][0], grid['step'][0], grid['count'][0], kind != 'local')),
                  draw(coordinate(grid['start'][1], grid['step'][1], grid['count'][1], grid['circular']))] for _ in range(draw(st.integers(1, 8)))]
    data = [[list(r) for r in draw(rows)] for _ in range(draw(st.integers(1, 3)))]
    return {'kind': kind, 'grid': grid, 'locations': locations, 'sources': data, 'day': draw(st.integers(1, 70000)),
            'order': draw(st.integers(0, 2 ** 32)), 'shape': draw(st.sampled_from(['f4', 'f8']))}


class Source(ObservationSource):
    def __init__(self, locations, rows, day, dtype):
        self.locations, self.rows, self.day, self.dtype = locations, rows, day, dtype

    def observables(self):
        return ['Tmean']

    def number_of_observations(self):
        return len(self.rows)

    def observation_location_lookup(self):
        return numpy.array(self.locations, numpy.float64).reshape(-1, 2).T

    def observations(self, observable):
        column = lambda k, kind: numpy.array([r[k] for r in self.rows], kind)
        return Observations(column(3, bool), numpy.array([self.day + r[4] for r in self.rows], numpy.float64), numpy.array([r[0] % len(self.locations) for r in self.rows], numpy.uint64),
                            column(1, self.dtype), column(2, self.dtype), [])

    def local_correlation_length_scale(self, observable):
        return []


def axes_of(case):
    if case['kind'] == 'global':
        return GlobalFieldAxes2D().aslist()
    if case['kind'] == 'globaltime':
        return GlobalFieldAxes2DWithTime(case['day']).aslist()
    g = case['grid']
    return [GridFieldAxis(g['start'][k] - 0.5 * g['step'][k], g['step'][k], g['count'][k], name, circular=bool(k and g['circular'])) for k, name in enumerate(['latitude', 'longitude'])]


def cell(grid, location, polar):
    out = []
    for k in range(2):
        i = int(numpy.floor((location[k] - grid['start'][k]) / grid['step'][k]))
        if i == grid['count'][k]:
            i = 0 if k else i - 1
        out.append(i)
    return tuple(out)


def expected(case, rows):
    cells = {}
    for r in rows:
        if not r[3] and int(numpy.floor(r[4])) == 0:
            cells.setdefault(cell(case['grid'], case['locations'][r[0] % len(case['locations'])], case['kind'] != 'local'), []).append((float(r[1]), float(r[2])))
    return cells


def check_field(case, data, cells, function, what):
    shape = tuple(case['grid']['count'])
    data = numpy.ma.masked_array(data).reshape(shape)
    mask = numpy.ma.getmaskarray(data)
    want = numpy.ones(shape, bool)
    for c in cells:
        want[c] = False
    require(numpy.array_equal(mask, want), '%s: cells with values are %s, expected %s', what, sorted(map(tuple, numpy.argwhere(~mask).tolist()))[:10], sorted(cells)[:10])
    for c, pairs in cells.items():
        value = function([p[0] for p in pairs], [p[1] for p in pairs])
        require_close(data[c], value, '%s in cell %s with %s' % (what, c, pairs[:6]), rtol=1e-9, atol=1e-6)


FIELDS = {'count': lambda o, u: len(o), 'observation_min': lambda o, u: min(o), 'observation_max': lambda o, u: max(o), 'uncertainty_min': lambda o, u: min(u), 'uncertainty_max': lambda o, u: max(u),
          'observation_weightedsum': lambda o, u: sum(a / b for a, b in zip(o, u)), 'precision_sum': lambda o, u: sum(1.0 / b for b in u),
          'observation_weightedmean': lambda o, u: sum(a / b for a, b in zip(o, u)) / sum(1.0 / b for b in u)}


@facet(local_cases(), quick=500, thorough=8000, shards=4)
def grid_statistics(case):
    day = case['day']
    state = numpy.random.RandomState(case['order'] % 2 ** 32)
    flat = [r for s in case['sources'] for r in s]
    shuffled = [flat[i] for i in state.permutation(len(flat))]
    cuts = sorted(state.randint(0, len(flat) + 1, size=2).tolist())
    for parts in (case['sources'], [shuffled[:cuts[0]], shuffled[cuts[0]:cuts[1]], shuffled[cuts[1]:]]):
        axes = axes_of(case)
        grid = DiagnosticGridBins(axes)
        for part in parts:
            connector = DiagnosticGridObservationConnector(axes, Source(case['locations'], part, day, case['shape']))
            grid.create_fields_from_sparse_observations('one', connector.get_day('Tmean', day))
            # another source on the same grid must not interfere
            grid.create_fields_from_sparse_observations('other', connector.get_day('Tmean', day + 1))
        grid.compute_weighted_mean('one', 'Tmean')
        cells = expected(case, flat)
        for name, function in FIELDS.items():
            check_field(case, grid.get_field('one_Tmean_' + name).data, cells, function, name)
        other = expected(case, [[r[0], r[1], r[2], r[3], r[4] - 1] for r in flat])
        check_field(case, grid.get_field('other_Tmean_count').data, other, FIELDS['count'], 'count of the next day')
    return any(len(v) > 1 for v in cells.values())


@st.composite
def outside_cases(draw):
    grid = draw(local_grids())
    k = draw(st.integers(0, 1))
    inside = [[draw(coordinate(grid['start'][i], grid['step'][i], grid['count'][i], False)) for i in range(2)] for _ in range(draw(st.integers(0, 3)))]
    away = draw(st.one_of(st.floats(0.001, 3), st.sampled_from([0.5, 0.25, 0.99, 1.0, 1.5])))
    bad = [draw(coordinate(grid['start'][i], grid['step'][i], grid['count'][i], False)) for i in range(2)]
    below = draw(st.booleans())
    wraps = grid['circular'] and k == 1
    bad[k] = grid['start'][k] - away * grid['step'][k] if below else grid['start'][k] + grid['step'][k] * (grid['count'][k] + away + (1 if wraps else 0))
    return {'grid': grid, 'locations': inside + [bad], 'kind': 'local'}


@facet(outside_cases(), quick=200, thorough=4000)
def outside_locations_refused(case):
    """non-trivial: a location outside the grid next to ones inside"""
    require(raises(ValueError, DiagnosticGridObservationConnector, axes_of(case), Source(case['locations'], [], 1, 'f4')),
            'a location outside the grid is accepted: %s', case['locations'][-1])
    return len(case['locations']) > 1


@st.composite
def file_cases(draw):
    n = draw(st.integers(1, 3))
    pool = st.tuples(st.one_of(st.floats(-90, 90), st.sampled_from([-90.0, 90.0, 0.0, 89.75, -0.25, 89.99999999999999])), st.one_of(st.floats(-180, 180), st.sampled_from([-180.0, 180.0, 0.0, 179.75])))
    return {'kind': 'globaltime', 'grid': {'start': [-90.0, -180.0], 'step': [0.25, 0.25], 'count': [720, 1440], 'circular': True}, 'day': draw(st.integers(1, 60000)),
            'locations': [list(l) for l in draw(st.lists(pool, min_size=1, max_size=6))],
            'sources': [{'rows': [list(r) for r in draw(st.lists(st.tuples(st.integers(0, 29), st.floats(200, 330), st.floats(0.01, 50), st.sampled_from([False, False, True]), st.just(0)), max_size=10))],
                         'observable': draw(st.sampled_from(['Tmin', 'Tmean', 'Tmax'])), 'sharelocations': draw(st.booleans())} for _ in range(n)]}


@facet(file_cases(), quick=24, thorough=200, shards=4, cost=4)
def combined_file(case):
    """non-trivial: some source has observations"""
    with scratch() as directory:
        os.chdir(directory)
        table = numpy.array(case['locations'], numpy.float64).reshape(-1, 2).T
        inputs = []
        for k, s in enumerate(case['sources']):
            identifier = uuid.UUID(int=7 if s['sharelocations'] else 100 + k)
            lookup = 'lookup%d.bin' % (0 if s['sharelocations'] else k + 1)
            raw.LocationLookupRawBinaryWriter().write(lookup, raw.LocationLookupWithID(identifier, table))
            raw.LocalCorrelationRangeRawBinaryWriter().write('ranges%d.bin' % k, [])
            raw.ObservationRawBinaryWriter().write_day('obs%d.bin' % k, identifier, Source(case['locations'], s['rows'], case['day'], 'f8').observations('x'), case['day'])
            inputs.append(diagnostic_combine.DiagnosticInput('source%d' % k, s['observable'], 'ranges%d.bin' % k, lookup, 'obs%d.bin' % k))
        diagnostic_combine.run('out/combined.nc', inputs, epoch_plus_days(case['day']))
        cubes = written.pop('out/combined.nc')
        for k, s in enumerate(case['sources']):
            cells = expected(case, s['rows'])
            for name, function in FIELDS.items():
                cube = cubes['source%d_%s_%s' % (k, s['observable'], name)]
                check_field(case, cube.data, cells, function, 'saved: ' + name)
                require_close(cube.coord('latitude').points, -90 + 0.25 * (numpy.arange(720) + 0.5), 'saved latitudes', atol=1e-5)
                require_close(cube.coord('longitude').points, -180 + 0.25 * (numpy.arange(1440) + 0.5), 'saved longitudes', atol=1e-5)
                require_close(cube.coord('time').points, [case['day']], 'saved time')
    return any(s['rows'] for s in case['sources'])
