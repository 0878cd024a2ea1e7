"""Cases: sets of 0 to 30 break points in any order, with likelihoods 0 to 127, thresholds and decay constants for both
policies; break point files with stations, places, missing likelihoods or none, cut-off values; days of observations of up
to 12 stations, some masked, before, on, between and after break points; files of every kind of source. Oracle: a
comprehension over the records, and for biases the earliest later break point of the station. The queries and policies are
also run on the C++ compiled from the tree, and the files read by it. A case is non-trivial when there are at least two
break points (or, for satellites, two observations)."""

import datetime
import math
import os

import netCDF4
import numpy
from hypothesis import strategies as st
from harness import facet, raises, require, require_close, scratch
from support import driver

from eustace.analysis.observationsource import Observations, ObservationsBreakPoints
from eustace.analysis.advanced_standard.elements.bias import BiasElement
from eustace.analysis.advanced_standard.elements.bias_insitu_land import InsituLandBiasElement
from eustace.analysis.advanced_standard.elements.covariate import CovariateHyperparameters
from eustace.analysis.advanced_standard.fileio.observation_source_surface_effects import insitu_land_covariate_effect
from eustace.analysis.advanced_standard.fileio.observation_structure_source_connector import ObservationStructureSourceConnector
from eustace.preprocess.fileio.insitu_land_breakpoints import ObservationBreakPointSourceInsituLand
from eustace.timeutils.epoch import epoch_plus_days

likelihoods = st.one_of(st.integers(0, 127), st.sampled_from([0, 1, 126, 127]))
times = st.one_of(st.integers(0, 60000), st.integers(40000, 40010))


@st.composite
def sets(draw):
    rows = draw(st.lists(st.tuples(times, st.integers(1, draw(st.sampled_from([1, 3, 200]))), likelihoods), max_size=draw(st.sampled_from([2, 8, 30]))))
    if draw(st.integers(0, 19)) == 0:
        # many
        rows = rows + draw(st.lists(st.tuples(times, st.integers(1, 200), st.integers(0, 127)), min_size=120, max_size=150))
    policy = draw(st.integers(0, 1))
    if policy == 0:
        threshold, decay = draw(st.one_of(st.integers(-1, 128).map(float), st.floats(0, 127))), 0.0
        if rows and draw(st.booleans()):
            threshold = float(draw(st.sampled_from(rows))[2])
    else:
        threshold, decay = draw(st.one_of(st.floats(0, 1), st.sampled_from([0.0, 1.0, 1e-30]))), draw(st.floats(0, 1))
    return {'rows': [list(r) for r in rows], 'policy': policy, 'threshold': threshold, 'decay': decay, 'station': draw(st.integers(1, 4)), 'kind': draw(st.sampled_from(['int8', 'int32', 'int64']))}


def built(case):
    t, s, l = ([r[k] for r in case['rows']] for k in range(3))
    return ObservationsBreakPoints(numpy.array(t, numpy.int32), numpy.array(s, numpy.int32), numpy.array(l, case['kind']))


def value(case, row):
    return row[2] if case['policy'] == 0 else math.exp(-case['decay'] * (127 - row[2]))


def close(case):
    return case['policy'] == 1 and any(abs(value(case, r) - case['threshold']) <= 1e-12 * case['threshold'] and value(case, r) != 1.0 for r in case['rows'])


def triples(b):
    require(b.break_time.shape == b.break_station.shape == b.break_likelihood.shape and b.break_time.ndim == 1, 'shapes %s %s %s', b.break_time.shape, b.break_station.shape, b.break_likelihood.shape)
    return [[int(x) for x in r] for r in zip(b.break_time, b.break_station, b.break_likelihood)]


@facet(sets(), quick=600, thorough=6000)
def queries(case):
    """numbers, stations and the filter of a station; what a policy keeps"""
    b = built(case)
    rows = case['rows']
    stations = sorted(set(r[1] for r in rows))
    require(b.number_of_observations() == len(rows), 'number of break points %s for %s', b.number_of_observations(), len(rows))
    require(b.total_number_of_stations() == len(stations), 'number of stations %s for %s', b.total_number_of_stations(), len(stations))
    require(list(b.stations_collection()) == stations, 'stations %s for %s', list(b.stations_collection()), stations)
    require(list(b.stations_count()) == [sum(r[1] == s for r in rows) for s in stations], 'counts of stations %s', list(b.stations_count()))
    require(list(b.filtered_break_points(case['station'])) == [r[0] for r in rows if r[1] == case['station']], 'break points of station %s: %s', case['station'], list(b.filtered_break_points(case['station'])))
    several = [case['station'], case['station'] + 2]
    require(list(b.filtered_break_points(several)) == [r[0] for r in rows if r[1] in several], 'break points of stations %s: %s', several, list(b.filtered_break_points(several)))
    require(list(b.stations_break_point_indices(several)) == [k for k, r in enumerate(rows) if r[1] in several], 'indices of break points of stations %s: %s', several, list(b.stations_break_point_indices(several)))
    epoch = datetime.datetime(1850, 1, 1)
    require(list(b.break_points_timestamp(epoch)) == [(epoch + datetime.timedelta(days=r[0])).strftime('%Y-%m-%d') for r in rows], 'dates %s', list(b.break_points_timestamp(epoch)))
    require(raises(ValueError, b.apply_policy, 'OTHER'), 'a policy that does not exist is accepted')
    if close(case):
        return False
    expected = [r for r in rows if value(case, r) >= case['threshold']]
    b.apply_policy(['HARD_CUTOFF', 'LAPLACE_KERNEL'][case['policy']], threshold=case['threshold'], decay_constant=case['decay'])
    require(triples(b) == expected, 'the policy keeps %s instead of %s', triples(b), expected)
    return len(rows) > 1


@facet(sets(), quick=400, thorough=3000)
def compiled(case):
    """the same of the C++"""
    rows = case['rows']
    lines = driver('breaks', case['policy'], repr(case['threshold']), repr(case['decay']), case['station'], len(rows), *[x for r in rows for x in r])
    stations = sorted(set(r[1] for r in rows))
    require(lines[0].split() == ['n', str(len(rows)), str(len(stations))], 'numbers of break points and stations: %s', lines[0])
    require(lines[1].split()[1:] == ['%d:%d' % (s, sum(r[1] == s for r in rows)) for s in stations], 'stations: %s', lines[1])
    require([int(x) for x in lines[2].split()[1:]] == [r[0] for r in rows if r[1] == case['station']], 'break points of station %s: %s', case['station'], lines[2])
    if close(case):
        return False
    expected = [r for r in rows if value(case, r) >= case['threshold']]
    require(lines[3].split() == ['size'] + [str(len(expected))] * 3, 'sizes after policy: %s for %s', lines[3], len(expected))
    require([[int(x) for x in l.split()[1:]] for l in lines[4:]] == expected, 'the policy keeps %s instead of %s', lines[4:], expected)
    return len(rows) > 1


@st.composite
def files(draw, bases=(0, 1)):
    """a break point file: break points by station and time, as the homogenisation writes them"""
    count = draw(st.integers(1, 12))
    base = draw(st.sampled_from(bases))
    rows = []
    missing = draw(st.sampled_from(['none', 'none', 'some', 'all']))
    for s in range(count):
        for t in sorted(draw(st.lists(times, max_size=draw(st.sampled_from([0, 1, 4])), unique=True))):
            rows.append([t, s + base, None if missing == 'all' or (missing == 'some' and draw(st.booleans())) else draw(st.integers(1, 127))])
    if not rows:
        rows = [[draw(times), draw(st.integers(base, count - 1 + base)), draw(st.integers(1, 127))]]
    places = [[draw(st.floats(-90, 90, width=32)), draw(st.one_of(st.floats(-180, 359.75, width=32), st.sampled_from([-180.0, 0.0, 179.5, 180.0, 359.5])))] for _ in range(count)]
    return {'rows': rows, 'places': places, 'feasible': [draw(st.integers(0, 2)) for _ in range(count)], 'cut': draw(st.one_of(st.none(), st.integers(1, 127))), 'base': base, 'station': draw(st.integers(base, max(base, count - 1)))}


def write(case, directory):
    path = os.path.join(directory, 'breaks.nc')
    d = netCDF4.Dataset(path, 'w')
    d.createDimension('merged_break', len(case['rows']))
    d.createDimension('station', len(case['places']))
    for name, kind, k in (('merged_break_time', 'i4', 0), ('merged_break_station', 'i4', 1), ('merged_break_likelihood', 'i1', 2)):
        v = d.createVariable(name, kind, ('merged_break',), fill_value=-128 if k == 2 else None)
        v[:] = numpy.array([-128 if r[k] is None else r[k] for r in case['rows']], kind)
    d.createVariable('detection_feasibility', 'i1', ('station',))[:] = numpy.array(case['feasible'], 'i1')
    d.createVariable('latitude', 'f4', ('station',))[:] = numpy.array([p[0] for p in case['places']], 'f4')
    d.createVariable('longitude', 'f4', ('station',))[:] = numpy.array([p[1] for p in case['places']], 'f4')
    d.close()
    return path


def kept(case):
    rows = [r for r in case['rows'] if r[2] is not None]
    return rows if case['cut'] is None else [r for r in rows if r[2] >= case['cut']]


def places(case):
    return [[p[0], p[1] - 360 if p[1] >= 180 else p[1]] for p in case['places']]


@facet(files(), quick=150, thorough=1500)
def reading(case):
    """a break point file read by Python and C++, whole and for one station"""
    with scratch() as directory:
        path = write(case, directory)
        known = [r for r in case['rows'] if r[2] is not None]
        source = ObservationBreakPointSourceInsituLand(path)
        require(list(source.observables()) == ['merged_break'], 'observables %s', list(source.observables()))
        require(source.number_of_observations('merged_break') == len(case['rows']), 'number of break points %s', source.number_of_observations('merged_break'))
        b = source.observations()
        require(triples(b) == known, 'break points read: %s for %s', triples(b), known)
        require(list(b.detection_feasibility) == case['feasible'], 'feasibility %s', list(b.detection_feasibility))
        require_close(numpy.asarray(source.observation_location_lookup()).T, numpy.array(places(case)), 'places of stations', 0, 1e-4)
        source.dataset.close()
        source = ObservationBreakPointSourceInsituLand(path, case['station'] if len(case['places']) > 1 else 0)
        if len(case['places']) > 1 or case['base'] == 0:
            require(source.number_of_observations('merged_break') == sum(r[1] == case['station'] for r in case['rows']), 'number of break points of station')
            require(triples(source.observations()) == [r for r in known if r[1] == case['station']], 'break points of station %s: %s', case['station'], triples(source.observations()))
        if case['base'] == 0:
            require(list(source.observations().detection_feasibility) == [case['feasible'][case['station']]], 'feasibility of station %s: %s', case['station'], list(source.observations().detection_feasibility))
        source.dataset.close()
        lines = driver('breakfile', path)
        n = len(case['rows'])
        require(lines[0].split() == ['size'] + [str(n)] * 3, 'C++ sizes %s', lines[0])
        require([[int(x) for x in l.split()[1:]] for l in lines[1:n + 1]] == [[r[0], r[1], -128 if r[2] is None else r[2]] for r in case['rows']], 'C++ break points %s', lines[1:n + 1])
        require_close(numpy.array([[float.fromhex(x) for x in l.split()[1:]] for l in lines[n + 1:]]), numpy.array(places(case)), 'C++ places of stations', 0, 1e-4)
    return len(case['rows']) > 1


class File(object):
    def __init__(self, filename):
        self.filename = filename


class Source(object):
    """observations of a day at stations, as a raw binary source gives them"""

    def __init__(self, case):
        self.case = case
        self.filespecs = {'file%d' % k: File(f) for k, f in enumerate(case['names'])}

    def observation_location_lookup(self):
        return numpy.array(self.case['places'], numpy.float64).reshape(-1, 2).T.copy()

    def observations(self, observable):
        o = self.case['observations']
        n = len(o)
        return Observations(numpy.array([x[1] for x in o], bool), numpy.array([self.case['day']]) if self.case['array'] else self.case['day'],
                            numpy.array([x[0] for x in o], self.case['kind']), numpy.array([x[2] for x in o], float), numpy.array([x[3] for x in o], float), [])


SOURCES = ['insitu_land', 'insitu_ocean', 'surfaceairmodel_land', 'surfaceairmodel_ocean', 'surfaceairmodel_ice']


@st.composite
def days(draw):
    case = draw(files((1,)))
    count = len(case['places'])
    stations = sorted(draw(st.sets(st.integers(0, count - 1), max_size=count)))
    if draw(st.integers(0, 3)):
        stations = list(range(count))
    case['observations'] = [[s, draw(st.integers(0, 4)) == 0, draw(st.floats(200, 320)), draw(st.one_of(st.floats(0.1, 5), st.floats(0.001, 100)))] for s in stations]
    near = draw(st.sampled_from(case['rows']))[0]
    case['day'] = max(0, draw(st.one_of(st.just(near), st.just(near - 1), st.just(near + 1), times)))
    case['array'] = draw(st.booleans())
    case['kind'] = draw(st.sampled_from(['int64', 'int32', 'uint64']))
    source = draw(st.sampled_from(['insitu_land'] * 4 + SOURCES))
    case['names'] = ['/some/place/%s_%s_20140202.bin' % (source, t) for t in draw(st.sampled_from([['Tmean'], ['Tmin', 'Tmax'], ['Tmax']]))]
    if draw(st.integers(0, 9)) == 0:
        case['names'] += [None]
    if draw(st.integers(0, 9)) == 0:
        # (files of two sources together: the biases of neither apply)
        case['names'] += ['/some/place/%s_Tmin_20140202.bin' % draw(st.sampled_from([s for s in SOURCES if s != source]))]
        source = 'mixed'
    case['source'] = source
    return case


def bias(case, rows, station):
    later = [(r[0], k) for k, r in enumerate(rows) if r[1] == station + 1 and r[0] > case['day']]
    return min(later)[1] if later else None


@facet(days(), quick=500, thorough=4000)
def station_biases(case):
    """each observation of a station gets the parameter of the period ended by the next break point"""
    with scratch() as directory:
        path = write(case, directory)
        element = InsituLandBiasElement(path, apply_policy=case['cut'] is not None, cut_value=case['cut'] or 0)
    rows = kept(case)
    valid = [o for o in case['observations'] if not o[1]]
    structure = ObservationStructureSourceConnector(Source(case), 'Tmean', epoch_plus_days(case['day']))
    require(element.number_of_biases == len(rows), 'number of biases %s for %s', element.number_of_biases, len(rows))
    require(structure.number_of_observations() == len(valid), 'number of observations %s', structure.number_of_observations())
    design = element.element_design(structure)
    require(design.design_number_of_state_parameters() == len(rows), 'number of parameters %s', design.design_number_of_state_parameters())
    A = design.design_matrix().toarray()
    expected = numpy.zeros((len(valid), len(rows)))
    if case['source'] == 'insitu_land':
        for i, o in enumerate(valid):
            k = bias(case, rows, o[0])
            if k is not None:
                expected[i, k] = 1.0
    require(A.shape == expected.shape and (A == expected).all(), 'biases of observations: %s for %s', [list(map(int, x)) for x in numpy.argwhere(A)], [list(map(int, x)) for x in numpy.argwhere(expected)])
    x = numpy.arange(1.0, len(rows) + 1)
    require_close(design.design_function(x), expected.dot(x), 'biases', 0, 1e-9)
    if rows:
        h = CovariateHyperparameters(0.3)
        Q = element.element_prior(h).prior_precision().toarray()
        require_close(Q, numpy.eye(len(rows)) * math.exp(-2 * 0.3), 'prior of biases', 1e-9, 0)
    effect = insitu_land_covariate_effect(case['day'], numpy.array([o[0] for o in valid], numpy.int64), element.observed_breakpoints)
    pairs = [[i, bias(case, rows, o[0])] for i, o in enumerate(valid) if bias(case, rows, o[0]) is not None]
    require((effect is None) == (not pairs) and (not pairs or numpy.asarray(effect).tolist() == pairs), 'effect %s for %s', effect, pairs)
    return len(rows) > 1


@facet(days(), quick=300, thorough=3000)
def satellite_biases(case):
    """one parameter for all of land or ocean, one for each hemisphere of ice, and none for observations of other sources"""
    structure = ObservationStructureSourceConnector(Source(case), 'Tmean', epoch_plus_days(case['day']))
    valid = [o for o in case['observations'] if not o[1]]
    p = numpy.array([places(case)[o[0]] for o in valid], float).reshape(-1, 2)
    require_close(structure.location_polar_coordinates(), p, 'places', 0, 1e-9)
    require(list(structure.observation_vector()) == [o[2] for o in valid], 'observation vector')
    require_close(structure.observation_precision().toarray(), numpy.diag([1 / o[3] ** 2 for o in valid]), 'precision', 1e-12, 0)
    for kind in SOURCES[2:]:
        element = BiasElement(kind + '_global', 2)
        A = element.element_design(structure).design_matrix().toarray()
        expected = numpy.zeros((len(valid), 2))
        if kind == case['source']:
            for i, o in enumerate(valid):
                expected[i, 1 if kind == 'surfaceairmodel_ice' and p[i, 0] < 0 else 0] = 1.0
        require(A.shape == expected.shape and (A == expected).all(), 'biases of %s: %s for %s', kind, A.tolist(), expected.tolist())
    require(raises(ValueError, structure.covariate_effect, 'surfaceairmodel_sea'), 'a group that does not exist is accepted')
    return len(valid) > 1
