"""Generated model elements with an independent dense reference of their designs and priors.

A specification is a dictionary with 'kind' and parameters; build(spec) gives the element, states(spec) the number of
state parameters, design(spec, observations) the dense design matrix and certainty of its rows, hyperparameters(spec)
the hyperparameter object for a vector, precision(spec, vector) the dense prior precision (complex vectors allowed)."""

import datetime
import json
import os

import netCDF4
import numpy
from hypothesis import strategies as st
import refspde as ref

from eustace.analysis.advanced_standard.elements.bias import BiasElement
from eustace.analysis.advanced_standard.elements.combination import CombinationElement, CombinationHyperparameters
from eustace.analysis.advanced_standard.elements.covariate import CovariateHyperparameters
from eustace.analysis.advanced_standard.elements.element import ObservationStructure
from eustace.analysis.advanced_standard.elements.factor import SpaceTimeFactorElement
from eustace.analysis.advanced_standard.elements.geography_based import GeographyBasedElement
from eustace.analysis.advanced_standard.elements.grandmean import GrandMeanElement
from eustace.analysis.advanced_standard.elements.kronecker import SpaceTimeKroneckerElement
from eustace.analysis.advanced_standard.elements.kronecker_annual import AnnualKroneckerElement
from eustace.analysis.advanced_standard.elements.latitudeharmonics import LatitudeHarmonicsElement
from eustace.analysis.advanced_standard.elements.latitudespline import LatitudeSplineElement
from eustace.analysis.advanced_standard.elements.local import LocalElement, LocalHyperparameters
from eustace.analysis.advanced_standard.elements.local_view import ExpandedLocalHyperparameters, LocalSubRegion, LocalSuperTriangle, NonStationaryLocal
from eustace.analysis.advanced_standard.elements.seasonal import SeasonalElement, SeasonalHyperparameters
from eustace.analysis.advanced_standard.elements.spacetimespde import SpaceTimeSPDEHyperparameters
from eustace.analysis.advanced_standard.elements.spatial_bias import SpatialBiasElement

GROUPS = ['one', 'two']


class Places(ObservationStructure):
    """Observation structure of given places, day and biases."""

    def __init__(self, case):
        self.case = case

    def time_index(self):
        return self.case['index']

    def time_datetime(self):
        return self.case['time']

    def number_of_observations(self):
        return len(self.case['places'])

    def location_polar_coordinates(self):
        return numpy.array(self.case['places'], numpy.float64).reshape(-1, 2)

    def covariate_effect(self, groupname, **kwargs):
        effect = self.case['effects'].get(groupname)
        return None if effect is None else numpy.array(effect, numpy.int64).reshape(-1, 2)


FIRST = datetime.datetime(1850, 1, 1)
LAT = st.one_of(st.floats(-90, 90), st.sampled_from([-90.0, 90.0, 0.0, 45.0]))
LON = st.one_of(st.floats(-180, 180), st.sampled_from([-180.0, 0.0, 179.9999, 90.0]))


@st.composite
def observations(draw, biases=4, least=0, most=7):
    places = [list(p) for p in draw(st.lists(st.tuples(LAT, LON), min_size=least, max_size=most))]
    effects = {}
    for group in GROUPS:
        kind = draw(st.sampled_from(['none', 'some', 'all']))
        if kind != 'none':
            effects[group] = [[i, draw(st.integers(0, biases - 1))] for i in range(len(places)) if kind == 'all' or draw(st.booleans())]
    return {'places': places, 'effects': effects, 'index': draw(st.one_of(st.integers(0, 60), st.floats(0, 60))),
            'time': datetime.datetime(draw(st.sampled_from([1850, 1900, 1999, 2000, 2015, 2016])), 1, 1) + datetime.timedelta(days=draw(st.sampled_from([0, 1, 58, 59, 60, 181, 364])), seconds=draw(st.sampled_from([0, 43200, 86399])))}


def spacetime(draw, kind):
    n = draw(st.integers(3, 6))
    start, end = (1848.0, 2020.0) if kind == 'annual' else (-2.0, 62.0)
    return {'kind': kind, 'level': draw(st.integers(0, 1)), 'alpha': draw(st.sampled_from([2, 2, 3])) if kind != 'factor' else 2, 'start': start, 'end': end, 'nodes': n,
            'overlap': draw(st.sampled_from([2.5, 1.0, 1.7])), 'H': draw(st.sampled_from([1.0, 1.01, 2.0])), 'wrap': draw(st.sampled_from([None, None, [True]]))}


KINDS = ['mean', 'bias', 'spatialbias', 'local', 'near', 'super', 'varying', 'seasonal', 'harmonics', 'spline', 'kronecker', 'annual', 'geography']


@st.composite
def specifications(draw, kinds=tuple(KINDS)):
    kind = draw(st.sampled_from(kinds))
    if kind in ('kronecker', 'annual', 'factor'):
        return spacetime(draw, kind)
    spec = {'kind': kind}
    if kind in ('local', 'varying', 'spatialbias'):
        spec['level'] = draw(st.integers(0, 2 if kind != 'varying' else 1))
    if kind in ('near', 'super'):
        spec['level'] = draw(st.integers(0, 2))
        spec['below'] = draw(st.integers(0, spec['level']))
        spec['index'] = draw(st.integers(0, 20 * 4 ** spec['below'] - 1))
    if kind in ('bias', 'spatialbias'):
        spec['group'] = draw(st.sampled_from(GROUPS + ['three']))
    if kind == 'bias':
        spec['count'] = draw(st.integers(4, 7))
    if kind == 'seasonal':
        spec.update(level=draw(st.integers(0, 1)), harmonics=draw(st.integers(0, 5)), mean=draw(st.booleans()))
        if spec['harmonics'] == 0:
            spec['mean'] = True
    if kind == 'spline':
        spec.update(alpha=draw(st.sampled_from([1, 2])), nodes=draw(st.integers(3, 12)), overlap=draw(st.sampled_from([2.5, 1.0, 3.0])), H=draw(st.sampled_from([1.0, 2.0])))
    if kind == 'geography':
        spec.update(nlat=draw(st.sampled_from([6, 9, 12, 18, 7, 64])), offset=draw(st.sampled_from([0.5, 0.0])), scale=draw(st.sampled_from([1.0, 0.001, -2.0])), seed=draw(st.integers(0, 10 ** 6)))
    return spec


def geography(spec):
    """latitudes, longitudes, values of a grid over the globe with the same spacing both ways"""
    h = 180.0 / spec['nlat']
    if spec['offset']:
        lat = -90 + h * (0.5 + numpy.arange(spec['nlat']))
    else:
        lat = -90 + h * numpy.arange(spec['nlat'] + 1)
    lon = -180 + h * (spec['offset'] + numpy.arange(2 * spec['nlat']))
    return lat, lon, numpy.random.RandomState(spec['seed']).normal(size=(len(lat), len(lon)))


def write_geography(spec, name):
    lat, lon, values = geography(spec)
    with netCDF4.Dataset(name, 'w') as dataset:
        dataset.createDimension('y', len(lat))
        dataset.createDimension('x', len(lon))
        for label, data in (('lat', numpy.repeat(lat[:, None], len(lon), axis=1)), ('lon', numpy.repeat(lon[None, :], len(lat), axis=0)), ('height', values)):
            dataset.createVariable(label, 'f8', ('y', 'x'))[:] = data


def build(spec):
    kind = spec['kind']
    if kind == 'mean':
        return GrandMeanElement()
    if kind == 'bias':
        return BiasElement(spec['group'], spec['count'])
    if kind == 'spatialbias':
        return SpatialBiasElement(spec['group'], spec['level'])
    if kind == 'local':
        return LocalElement(spec['level'])
    if kind == 'near':
        return LocalSubRegion(spec['level'], spec['below'], spec['index'])
    if kind == 'super':
        return LocalSuperTriangle(spec['level'], spec['below'], spec['index'])
    if kind == 'varying':
        return NonStationaryLocal(spec['level'])
    if kind == 'seasonal':
        return SeasonalElement(spec['level'], spec['harmonics'], spec['mean'])
    if kind == 'harmonics':
        return LatitudeHarmonicsElement()
    if kind == 'spline':
        return LatitudeSplineElement(spec['alpha'], spec['nodes'], spec['overlap'], spec['H'])
    if kind == 'geography':
        name = 'geography%d.nc' % abs(hash(json.dumps(spec, sort_keys=True)))
        write_geography(spec, name)
        element = GeographyBasedElement(name, 'lat', 'lon', 'height', spec['scale'])
        element.load()
        os.remove(name)
        return element
    if kind == 'combination':
        return CombinationElement([build(s) for s in spec['parts']])
    cls = {'kronecker': SpaceTimeKroneckerElement, 'annual': AnnualKroneckerElement, 'factor': SpaceTimeFactorElement}[kind]
    return cls(spec['level'], spec['alpha'], spec['start'], spec['end'], spec['nodes'], spec['overlap'], spec['H'], spec['wrap'])


def kept(spec):
    """triangles of a regional view"""
    level, below, index = spec['level'], spec['below'], spec['index']
    every = range(len(ref.sphere(level)[1]))
    if spec['kind'] == 'super':
        near = {index}
    else:
        coarse = ref.sphere(below)[1]
        near = {p for p in range(len(coarse)) if set(coarse[p]) & set(coarse[index])}
    return {t for t in every if t >> (2 * (level - below)) in near}


def kept_points(spec):
    triangles = ref.sphere(spec['level'])[1]
    return sorted({int(v) for t in kept(spec) for v in triangles[t]})


def padded(spec):
    h = 180.0 / (spec['nodes'] - 1)
    return [[-90.0 - 180 * h, 90.0 + 180 * h, spec['nodes'] + 360]]


def points_at(level):
    return 10 * 4 ** level + 2


def states(spec):
    kind = spec['kind']
    if kind in ('mean', 'geography'):
        return 1
    if kind == 'bias':
        return spec['count']
    if kind in ('spatialbias', 'local', 'varying'):
        return points_at(spec['level'])
    if kind in ('near', 'super'):
        return len(kept_points(spec))
    if kind == 'seasonal':
        return (2 * spec['harmonics'] + spec['mean']) * points_at(spec['level'])
    if kind == 'harmonics':
        return 4
    if kind == 'spline':
        return spec['nodes'] + 360
    if kind == 'combination':
        return sum(states(s) for s in spec['parts'])
    if kind == 'factor':
        return points_at(spec['level']) + spec['nodes']
    return points_at(spec['level']) * spec['nodes']


def decimal_year(t):
    first, last = datetime.datetime(t.year, 1, 1), datetime.datetime(t.year + 1, 1, 1)
    return t.year, (t - first).total_seconds() / (last - first).total_seconds()


def time_row(spec, case):
    where = sum(decimal_year(case['time'])) if spec['kind'] == 'annual' else float(case['index'])
    dims = [[spec['start'], spec['end'], spec['nodes']]]
    spacing = ref.lattice_axes(dims, spec['wrap'])[1][0]
    return ref.lattice_A(dims, spec['wrap'], [spacing * spec['overlap']], [[where]])


def design(spec, case):
    """dense design matrix of a linear element, and whether each row is certain"""
    kind = spec['kind']
    polar = numpy.array(case['places'], float).reshape(-1, 2)
    n = len(polar)
    sure = numpy.ones(n, bool)
    if kind == 'mean':
        return numpy.ones((n, 1)), sure
    if kind == 'bias':
        A = numpy.zeros((n, spec['count']))
        for i, j in case['effects'].get(spec['group']) or []:
            A[i, j] = 1
        return A, sure
    if kind == 'spatialbias':
        if case['effects'].get(spec['group']) is None:
            return numpy.zeros((n, points_at(spec['level']))), sure
        return ref.sphere_A(spec['level'], polar)[0], sure
    if kind in ('local', 'varying'):
        return ref.sphere_A(spec['level'], polar)[0], sure
    if kind in ('near', 'super'):
        A, sure = ref.sphere_A(spec['level'], polar, kept(spec))
        return A[:, kept_points(spec)], sure
    if kind == 'seasonal':
        A = ref.sphere_A(spec['level'], polar)[0]
        x = 2 * numpy.pi * decimal_year(case['time'])[1]
        factors = ([1.0] if spec['mean'] else []) + [f(k * x) for k in range(1, spec['harmonics'] + 1) for f in (numpy.sin, numpy.cos)]
        return numpy.hstack([f * A for f in factors]), sure
    if kind == 'harmonics':
        x = numpy.radians(polar[:, 0])
        return numpy.array([numpy.cos(2 * x), numpy.sin(2 * x), numpy.cos(4 * x), numpy.sin(4 * x)]).T.reshape(n, 4), sure
    if kind == 'spline':
        h = 180.0 / (spec['nodes'] - 1)
        return ref.lattice_A(padded(spec), None, [h * spec['overlap']], polar[:, :1]), sure
    if kind == 'geography':
        lat, lon, values = geography(spec)
        h = 180.0 / spec['nlat']
        A = numpy.zeros((n, 1))
        for i, (y, x) in enumerate(polar):
            row = lambda k: values[k] if 0 <= k < len(lat) else numpy.full(len(lon), edge(values, 0 if k < 0 else -1))
            a, b = (y - lat[0]) / h, (x - lon[0]) / h
            p, q = int(numpy.floor(a)), int(numpy.floor(b))
            u, v = a - p, b - q
            at = lambda r, c: row(r)[c % len(lon)]
            A[i, 0] = spec['scale'] * ((1 - u) * (1 - v) * at(p, q) + (1 - u) * v * at(p, q + 1) + (u * (1 - v) * at(p + 1, q) + u * v * at(p + 1, q + 1) if u else 0))
        return A, sure
    if kind == 'combination':
        both = [design(s, case) for s in spec['parts']]
        return numpy.hstack([b[0] for b in both]), numpy.all([b[1] for b in both], axis=0)
    A = ref.sphere_A(spec['level'], polar)[0]
    return numpy.kron(time_row(spec, case), A).reshape(n, A.shape[1] * spec['nodes']), sure


def edge(values, row):
    """value beyond the first or last row: mean of that row (the wrapped columns counted twice)"""
    r = values[row]
    return numpy.mean(numpy.hstack((r[-1:], r, r[:1])))


def certain(spec, case):
    """whether each row is certain (not on the boundary of a regional view)"""
    if spec['kind'] == 'combination':
        return numpy.all([certain(s, case) for s in spec['parts']], axis=0)
    if spec['kind'] in ('near', 'super'):
        return design(spec, case)[1]
    return numpy.ones(len(case['places']), bool)


def function(spec, case, x):
    """dense function value of any element at state x"""
    if spec['kind'] == 'combination':
        total, start = 0.0, 0
        for s in spec['parts']:
            total = total + function(s, case, x[start:start + states(s)])
            start += states(s)
        return total
    if spec['kind'] == 'factor':
        A = ref.sphere_A(spec['level'], numpy.array(case['places'], float).reshape(-1, 2))[0]
        n = A.shape[1]
        return A.dot(x[:n]) * time_row(spec, case)[0].dot(x[n:])
    return design(spec, case)[0].dot(x)


# Priors

def parameters(spec):
    """number of hyperparameters"""
    kind = spec['kind']
    if kind in ('mean', 'bias', 'geography'):
        return 1
    if kind == 'harmonics':
        return 4
    if kind == 'seasonal':
        return 2 * (spec['harmonics'] + spec['mean'])
    if kind == 'varying':
        return 2 * points_at(spec['level'])
    if kind in ('kronecker', 'annual', 'factor'):
        return 3
    if kind == 'combination':
        return sum(parameters(s) for s in spec['parts'])
    return 2


class Scalars(LocalHyperparameters):
    pass


def hyperparameters(spec, x):
    kind = spec['kind']
    if kind in ('mean', 'bias', 'geography'):
        return CovariateHyperparameters(x[0])
    if kind == 'harmonics':
        return CombinationHyperparameters([CovariateHyperparameters(v) for v in x])
    if kind == 'seasonal':
        h = SeasonalHyperparameters(len(x) // 2, 0.0, 0.0)
        h.set_array(numpy.array(x, float))
        return h
    if kind == 'varying':
        return ExpandedLocalHyperparameters(numpy.array(x[:len(x) // 2]), numpy.array(x[len(x) // 2:]))
    if kind in ('kronecker', 'annual', 'factor'):
        return SpaceTimeSPDEHyperparameters(x[0], x[1], x[2])
    if kind == 'combination':
        result, start = [], 0
        for s in spec['parts']:
            result.append(hyperparameters(s, x[start:start + parameters(s)]))
            start += parameters(s)
        return CombinationHyperparameters(result)
    return LocalHyperparameters(x[0], x[1])


FINITE = {}


def finite_elements(spec):
    key = (spec['level'],) + ((spec['kind'], spec['below'], spec['index']) if spec['kind'] in ('near', 'super') else ())
    if key not in FINITE:
        points, triangles = ref.sphere(spec['level'])
        if len(key) > 1:
            chosen = kept_points(spec)
            position = {v: i for i, v in enumerate(chosen)}
            triangles = numpy.array([[position[int(v)] for v in triangles[t]] for t in sorted(kept(spec))])
            points = points[chosen]
        FINITE[key] = ref.finite_elements(points, triangles)
    return FINITE[key]


def block(parts):
    n = sum(len(p) for p in parts)
    M, start = numpy.zeros((n, n), numpy.result_type(*parts)), 0
    for p in parts:
        M[start:start + len(p), start:start + len(p)] = p
        start += len(p)
    return M


def precision(spec, x):
    x = numpy.asarray(x)
    kind = spec['kind']
    if kind in ('mean', 'bias', 'geography'):
        return numpy.exp(-2 * x[0]) * numpy.eye(states(spec))
    if kind == 'harmonics':
        return numpy.diag(numpy.exp(-2 * x))
    if kind in ('local', 'spatialbias', 'near', 'super'):
        return ref.sphere_Q(*finite_elements(spec), x[0], x[1], 2)
    if kind == 'varying':
        return ref.sphere_Q(*finite_elements(spec), x[:len(x) // 2], x[len(x) // 2:], 2)
    if kind == 'seasonal':
        C, G = finite_elements(spec)
        orders = ([0] if spec['mean'] else []) + [k - (0 if spec['mean'] else 1) for k in range(1, spec['harmonics'] + 1) for _ in range(2)]
        return block([ref.sphere_Q(C, G, x[2 * k], x[2 * k + 1], 2) for k in orders])
    if kind == 'spline':
        return ref.lattice_Q(padded(spec), None, x[0], x[1], spec['alpha'], spec['H'])
    if kind == 'combination':
        parts, start = [], 0
        for s in spec['parts']:
            parts.append(precision(s, x[start:start + parameters(s)]))
            start += parameters(s)
        return block(parts)
    C, G = finite_elements(spec)
    space = ref.sphere_Q(C, G, x[0], x[1], spec['alpha'])
    dims = [[spec['start'], spec['end'], spec['nodes']]]
    if kind == 'factor':
        return block([space, ref.lattice_Q(dims, spec['wrap'], 0.0, x[2], spec['alpha'], spec['H'])])
    return numpy.kron(ref.lattice_Q(dims, spec['wrap'], 0.0, x[2], 1, spec['H']), space)


def ranges(spec):
    """centre of the log range parameters: about the spacing of the nodes"""
    return numpy.log({'spline': 180.0 / max(1, spec.get('nodes', 3) - 1), 'time': (spec.get('end', 1.0) - spec.get('start', 0.0)) / spec.get('nodes', 3), 'sphere': 0.7}.get(spec['kind'], 0.7))


def vector(spec, r):
    kind = spec['kind']
    if kind == 'combination':
        return numpy.hstack([vector(s, r) for s in spec['parts']])
    n = parameters(spec)
    x = r.uniform(-2, 2, n)
    if kind in ('mean', 'bias', 'geography', 'harmonics'):
        return 2 * x
    if kind == 'varying':
        return numpy.hstack((r.uniform(-2, 2) + 0.5 * x[:n // 2], r.uniform(-1, 1) + 0.2 * x[n // 2:]))
    if kind == 'seasonal':
        x[1::2] = r.uniform(-1.2, 1.2, n // 2)
        return x
    x[1] = ranges(spec) + r.uniform(-1.2, 1.2)
    if n == 3:
        x[2] = numpy.log((spec['end'] - spec['start']) / spec['nodes']) + r.uniform(-1, 1)
    return x
