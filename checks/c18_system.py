"""Cases: 1 to 3 components in any order (one state for all times, linear or f(x) = Ax + c(Bx)^2; one state per time, solved at
once or on update), 1 to 3 state parameters each, 1 to 4 times with 0 to 2 sources of 0 to 3 observations, 1 to 3 iterations,
whole systems or single steps, in memory and in files. Oracle: dense block-by-block solution with all other components' values
subtracted, and the dense joint posterior of all components. A case is non-trivial when there are two components and two batches of observations."""

import io
import os
from contextlib import redirect_stdout, redirect_stderr
from datetime import datetime, timedelta

import numpy
import scipy.sparse
from hypothesis import strategies as st
import genfields
from harness import facet, raises, require, require_close, scratch

from eustace.analysis.advanced_standard.analysissystem import AnalysisSystem, AnalysisSystemInputLoader
from eustace.analysis.advanced_standard.components import storage_files, storage_files_batch
from eustace.analysis.advanced_standard.components.spacetime import SpaceTimeComponent
from eustace.analysis.advanced_standard.components.spatial import SpatialComponent
from eustace.analysis.advanced_standard.components.spatialdelayed import DelayedSpatialComponent
from eustace.analysis.advanced_standard.components.storage_inmemory import ComponentStorage_InMemory, SpaceTimeComponentSolutionStorage_InMemory, SpatialComponentSolutionStorage_InMemory
from eustace.analysis.advanced_standard.elements.element import Element, ElementLinearDesign, ElementNonlinearDesign, ElementPrior, ObservationStructure
from eustace.analysis.advanced_standard.fileio.output_structure_rectilinear import OutputRectilinearGridStructure
from eustace.outputformats.definitions import CLIMATOLOGY_FRACTION_FILL_VALUE

number = st.integers(-40, 40).map(lambda x: x / 8.0)
coefficient = st.sampled_from([0.0, 1.0, -1.0, 2.0, -0.5, 0.25])
OBSERVABLE = 'Tmean'


@st.composite
def batches(draw, sizes, least=0):
    m = draw(st.integers(least, 3))
    return {'a': [[[draw(coefficient) for _ in range(n)] for _ in range(m)] for n in sizes], 'b': [[[draw(coefficient) for _ in range(n)] for _ in range(m)] for n in sizes],
            'y': [draw(number) for _ in range(m)], 'p': [draw(st.sampled_from([0.5, 1.0, 2.0, 4.0, 25.0])) for _ in range(m)]}


@st.composite
def systems(draw, kinds=('all', 'all', 'curved', 'each', 'delayed')):
    components = []
    for _ in range(draw(st.integers(1, 3))):
        n = draw(st.integers(1, 3))
        l = [[0.0] * n for _ in range(n)]
        for i in range(n):
            for j in range(i):
                l[i][j] = draw(st.sampled_from([0.0, 1.0, -1.0, 0.5]))
            l[i][i] = draw(st.sampled_from([1.0, 2.0, 3.0]))
        components.append({'kind': draw(st.sampled_from(kinds)), 'l': l, 'start': [draw(number) for _ in range(n)]})
    sizes = [len(c['l']) for c in components]
    blank = draw(st.integers(0, 3)) == 3
    times = draw(st.lists(st.integers(0, 60000), min_size=4 if blank else 1, max_size=4, unique=True))
    steps = [[t, draw(st.lists(batches(sizes), min_size=1, max_size=2))] for t in times]
    if blank:
        # nothing observed at every other time
        steps = [[t, given if i % 2 == 0 else []] for i, (t, given) in enumerate(steps)]
    return {'components': components, 'steps': steps, 'query': draw(batches(sizes, 1)), 'curve': draw(st.sampled_from([0.125, 0.0625]))}


class Prior(ElementPrior):
    def __init__(self, l):
        self.q = numpy.array(l) @ numpy.array(l).T

    def prior_number_of_state_parameters(self):
        return self.q.shape[0]

    def prior_precision(self):
        return scipy.sparse.csr_matrix(self.q)


class Linear(ElementLinearDesign):
    def __init__(self, a, n):
        self.a = numpy.array(a, float).reshape(-1, n)

    def design_number_of_state_parameters(self):
        return self.a.shape[1]

    def design_matrix(self):
        return scipy.sparse.csr_matrix(self.a)


class Curved(ElementNonlinearDesign):
    def __init__(self, a, b, curve, start):
        self.a, self.b, self.curve, self.start = numpy.array(a, float).reshape(-1, len(start)), numpy.array(b, float).reshape(-1, len(start)), curve, start

    def design_number_of_state_parameters(self):
        return self.a.shape[1]

    def design_initial_state(self):
        return numpy.array(self.start)

    def design_function(self, currentstate, rectified=False):
        x = numpy.array(currentstate).ravel()
        return self.a @ x + self.curve * (self.b @ x) ** 2

    def design_jacobian(self, currentstate):
        x = numpy.array(currentstate).ravel()
        return scipy.sparse.csr_matrix(self.a + 2 * self.curve * (self.b @ x)[:, None] * self.b)


def design(case, k, batch):
    component = case['components'][k]
    if component['kind'] == 'curved':
        return Curved(batch['a'][k], batch['b'][k], case['curve'], component['start'])
    return Linear(batch['a'][k], len(component['start']))


class AnElement(Element):
    def __init__(self, case, k):
        super().__init__()
        self.case, self.k = case, k

    def isnonlinear(self):
        return self.case['components'][self.k]['kind'] == 'curved'

    def element_design(self, observationstructure):
        return design(self.case, self.k, observationstructure.batch)

    def element_prior(self, hyperparameters):
        return Prior(self.case['components'][self.k]['l'])


class Batch(ObservationStructure):
    def __init__(self, time, batch):
        self.time, self.batch = time, batch

    def time_index(self):
        return self.time

    def number_of_observations(self):
        return len(self.batch['y'])

    def observation_vector(self):
        return numpy.array(self.batch['y'])

    def observation_precision(self):
        return scipy.sparse.diags(self.batch['p'], format='csr')


class Loader(AnalysisSystemInputLoader):
    """observations of the number-th source at each time"""

    def __init__(self, steps, source, names=None):
        self.steps, self.source, self.names = dict((t, given) for t, given in steps), source, names

    def load_observation_structure(self, observable, time_index, log=None):
        require(observable == OBSERVABLE, 'asks for the observable %s', observable)
        given = self.steps[time_index]
        empty = {'a': [], 'b': [], 'y': [], 'p': []}
        return Batch(time_index if self.names is None else self.names[time_index], given[self.source] if self.source < len(given) else empty)

    def datetime_at_time_index(self, time_index):
        return datetime(1850, 1, 1) + timedelta(days=int(time_index))


def quiet(f, *args, **kwargs):
    with redirect_stdout(io.StringIO()), redirect_stderr(io.StringIO()):
        return f(*args, **kwargs)


def flat(x):
    return numpy.array(x).ravel()


class Reference:
    def __init__(self, case):
        self.case = case
        self.q = [Prior(c['l']).q for c in case['components']]
        self.state = [{} for _ in case['components']]
        self.precision = [{} for _ in case['components']]

    def single(self, k):
        return self.case['components'][k]['kind'] in ('all', 'curved')

    def key(self, k, time):
        return None if self.single(k) else time

    def value(self, k, time, batch):
        d = design(self.case, k, batch)
        x = self.state[k].get(self.key(k, time))
        if x is None:
            x = numpy.array(self.case['components'][k]['start']) if self.case['components'][k]['kind'] == 'curved' else numpy.zeros(len(self.q[k]))
        return d.design_function(x) if self.case['components'][k]['kind'] == 'curved' else d.a @ x

    def iterate(self, k):
        sums = {}
        if self.single(k):
            sums[None] = [self.q[k].copy(), numpy.zeros(len(self.q[k]))]
        curved = self.case['components'][k]['kind'] == 'curved'
        seen = False
        for time, given in self.case['steps']:
            for batch in given:
                if not batch['y']:
                    continue
                seen = True
                total = sums.setdefault(self.key(k, time), [self.q[k].copy(), numpy.zeros(len(self.q[k]))])
                d = design(self.case, k, batch)
                r = numpy.array(batch['y']) - sum((self.value(j, time, batch) for j in range(len(self.q)) if j != k), numpy.zeros(len(batch['y'])))
                x = self.state[k].get(self.key(k, time), numpy.array(self.case['components'][k]['start']))
                if curved:
                    r = r - d.design_function(x)
                j = d.design_jacobian(x).toarray() if curved else d.a
                total[0] = total[0] + (j.T * numpy.array(batch['p'])) @ j
                total[1] = total[1] + (j.T * numpy.array(batch['p'])) @ r
        for key, (q, i) in sums.items():
            before = self.state[k].get(key, numpy.array(self.case['components'][k]['start']))
            self.state[k][key] = numpy.linalg.solve(q, i) + (before if curved else 0.0)
            self.precision[k][key] = q

    def joint(self):
        """posterior mean of all states at once (linear components)"""
        where, n = {}, 0
        for k in range(len(self.q)):
            for key in [None] if self.single(k) else [t for t, _ in self.case['steps']]:
                where[k, key] = slice(n, n + len(self.q[k]))
                n += len(self.q[k])
        q, i = numpy.zeros((n, n)), numpy.zeros(n)
        for (k, key), s in where.items():
            q[s, s] += self.q[k]
        for time, given in self.case['steps']:
            for batch in given:
                if batch['y']:
                    a = numpy.zeros((len(batch['y']), n))
                    for k in range(len(self.q)):
                        a[:, where[k, self.key(k, time)]] += design(self.case, k, batch).a
                    w = a.T * numpy.array(batch['p'])
                    q, i = q + w @ a, i + w @ numpy.array(batch['y'])
        x = numpy.linalg.solve(q, i)
        return {k: {key: x[s] for (j, key), s in where.items() if j == k} for k in range(len(self.q))}


def observed(case):
    return [t for t, given in case['steps'] if any(b['y'] for b in given)]


def nontrivial(case):
    return len(case['components']) > 1 and sum(bool(b['y']) for _, given in case['steps'] for b in given) > 1


CLASS = {'all': SpaceTimeComponent, 'curved': SpaceTimeComponent, 'each': SpatialComponent, 'delayed': DelayedSpatialComponent}


def component(case, k, storage, **options):
    return CLASS[case['components'][k]['kind']](ComponentStorage_InMemory(AnElement(case, k), None), storage, compute_uncertainties=True, compute_sample=True, **options)


def memory_storage(kind):
    return SpaceTimeComponentSolutionStorage_InMemory() if kind in ('all', 'curved') else SpatialComponentSolutionStorage_InMemory()


def in_memory(case, **options):
    storages = [memory_storage(c['kind']) for c in case['components']]
    return AnalysisSystem([component(case, k, s, **options) for k, s in enumerate(storages)], OBSERVABLE, log=io.StringIO()), storages


def compare(system, reference, case, where, rtol=1e-6, rename=None):
    """the output of the system at every observed time"""
    query = case['query']
    rename = rename or (lambda t: t)
    for time in observed(case):
        structure = Batch(rename(time), query)
        expected = sum(reference.value(k, time, query) for k in range(len(reference.q)))
        got = quiet(system.evaluate_expected_value, 'MAP', structure, 'POINTWISE')
        size = max(1.0, numpy.abs(expected).max())
        require_close(flat(got), expected, where + 'expected value', rtol, rtol * size)
        if any(c['kind'] == 'curved' for c in case['components']):
            continue
        variance = numpy.zeros(len(query['y']))
        for k in range(len(reference.q)):
            deviation = numpy.sqrt(numpy.diag(numpy.linalg.inv(reference.precision[k][reference.key(k, time)])))
            variance = variance + (numpy.abs(design(case, k, query).a) @ deviation) ** 2
        got = quiet(system.evaluate_expected_value, 'post_STD', structure, 'POINTWISE')
        require_close(flat(got), numpy.sqrt(variance), where + 'uncertainty', rtol, rtol)


def large(reference):
    return any(numpy.abs(x).max() > 1e3 for s in reference.state for x in s.values())


@facet(st.tuples(systems(), st.integers(1, 3), st.sampled_from(['update', 'component', 'steps', 'times', 'years', 'years'])), quick=700, thorough=9000, cost=4, shards=3)
def iterations(given):
    """Every iteration solves each component for the observations less the current values of all others."""
    case, count, route = given
    if not observed(case):
        return False
    system, storages = in_memory(case)
    reference = Reference(case)
    times = [t for t, _ in case['steps']]
    loaders = [Loader(case['steps'], s) for s in range(2)]
    compare_before = quiet(system.evaluate_expected_value, 'MAP', Batch(times[0], case['query']), 'POINTWISE')
    require_close(flat(compare_before), sum(reference.value(k, times[0], case['query']) for k in range(len(reference.q))), 'expected value before any solution', 1e-12, 1e-12)
    for iteration in range(count):
        if route == 'update':
            quiet(system.update, loaders, times)
        for k in range(len(case['components'])):
            if route == 'component':
                quiet(system.update_component, loaders, k, times)
            elif route in ('steps', 'times', 'years'):
                if route == 'steps':
                    for t in times:
                        quiet(system.update_component_time, loaders, k, t)
                elif route == 'times':
                    quiet(system.update_component_times, [loaders for t in times], k, times)
                else:
                    quiet(system.update_component_times, [loaders for t in times[:2]], k, times[:2])
                    quiet(system.update_component_times, [loaders for t in times[2:]], k, times[2:])
                quiet(system.update_component_solution, k)
            reference.iterate(k)
            if large(reference):
                return False
            if route != 'update':
                for time in observed(case):
                    got = quiet(system.components[k].component_solution().solution_observation_expected_value, Batch(time, case['query']))
                    expected = reference.value(k, time, case['query'])
                    require_close(flat(got), expected, 'iteration %d: value of component %d' % (iteration, k), 1e-5, 1e-5 * max(1.0, numpy.abs(expected).max()))
        compare(system, reference, case, 'iteration %d: ' % iteration, 1e-5)
    return nontrivial(case)


@facet(systems(('all', 'each', 'delayed')), quick=300, thorough=4000, cost=4, shards=2)
def joint(case):
    """The joint posterior is not changed by updating, and is approached by iterating."""
    if not observed(case):
        return False
    reference = Reference(case)
    joint = reference.joint()
    system, storages = in_memory(case)
    for k, storage in enumerate(storages):
        for key, x in joint[k].items():
            if key is None:
                storage.state_write(x.reshape(-1, 1))
            else:
                storage.partial_state_write(x.reshape(-1, 1), key)
    times, loaders = [t for t, _ in case['steps']], [Loader(case['steps'], s) for s in range(2)]
    quiet(system.update, loaders, times)
    scale = max(1.0, max(numpy.abs(x).max() for k in joint for x in joint[k].values()))
    for k, storage in enumerate(storages):
        for key, x in joint[k].items():
            got = storage.state_read() if key is None else storage.partial_state_read(key)
            require_close(flat(got), x, 'state %d at the joint posterior' % k, 1e-6, 1e-6 * scale)
    count, error = 0, numpy.inf
    while error > 1e-6 and count < 60:
        for k in range(len(reference.q)):
            reference.iterate(k)
        count, error = count + 1, max(numpy.abs(reference.state[k].get(key, 0.0) - x).max() for k in joint for key, x in joint[k].items())
    if error > 1e-6:
        return False
    system, storages = in_memory(case)
    for _ in range(count):
        quiet(system.update, loaders, times)
    for k, storage in enumerate(storages):
        for key, x in joint[k].items():
            if key is None or key in observed(case):
                got = storage.state_read() if key is None else storage.partial_state_read(key)
                require_close(flat(got), x, 'state %d after %d iterations' % (k, count), 1e-5, 1e-5 * scale)
    return nontrivial(case)


def file_storage(folder, kind, k, times, step=None, solved=True):
    """storage of component k for processing one step, or for solving all (step None)"""
    at = lambda what, *t: os.path.join(folder, 'c%d' % k, what, '_'.join(['x'] + [str(i) for i in t]))
    if kind in ('all', 'curved'):
        seen = os.path.exists(at('state'))
        return storage_files.SpaceTimeComponentSolutionStorage_Files(
            statefilename_read=at('state') if seen else None, marginal_std_filename_read=at('std') if seen and solved else None, sample_filename_read=at('sample') if seen and solved else None,
            statefilename_write=at('state'), marginal_std_filename_write=at('std'), sample_filename_write=at('sample'),
            measurement_time_index_write=step, measurementfilename_write=at('m', step), measurementfilelist_read=[at('m', t) for t in range(len(times))])
    if kind == 'each':
        options = {}
        for what, start in (('state', 'statefilename'), ('std', 'marginal_std_filename'), ('sample', 'sample_filename')):
            options[start + '_write'] = at(what, step)
            options[start + '_read'] = at(what, step) if os.path.exists(at(what, step)) else None
        return storage_files.SpatialComponentSolutionStorage_Files(time_index=step, **options)
    options = {}
    for what, start in (('state', 'statefiledictionary'), ('std', 'marginal_std_filedictionary'), ('sample', 'sample_filedictionary'), ('m', 'measurementfiledictionary')):
        options[start + '_write'] = {t: at(what, t) for t in range(len(times))}
        options[start + '_read'] = {t: at(what, t) for t in range(len(times)) if os.path.exists(at(what, t))}
    return storage_files.DelayedSpatialComponentSolutionStorage_Files(**options)


@facet(st.tuples(systems(('all', 'all', 'each', 'delayed')), st.integers(1, 3)), quick=250, thorough=3000, cost=4, shards=2)
def in_files(given):
    """The same through files, each step of each iteration by a system made anew from what is in the files."""
    case, count = given
    case['steps'] = [[t, batches] for t, batches in case['steps'] if any(b['y'] for b in batches)]
    times = [t for t, _ in case['steps']]
    if not times:
        return False
    names = {t: i for i, t in enumerate(times)}
    loaders = [Loader(case['steps'], s, names) for s in range(2)]
    kinds = [c['kind'] for c in case['components']]
    reference = Reference(case)
    with scratch() as folder:
        def system(step):
            return AnalysisSystem([component(case, k, file_storage(folder, kind, k, times, step)) for k, kind in enumerate(kinds)], OBSERVABLE, log=io.StringIO())
        for iteration in range(count):
            for k in range(len(kinds)):
                for t in times:
                    quiet(system(names[t]).update_component_time, loaders, k, t)
                if kinds[k] != 'each':
                    quiet(system(0).update_component_solution, k)
                reference.iterate(k)
            for t in times:
                one = dict(case, steps=[s for s in case['steps'] if s[0] == t])
                compare(system(names[t]), reference, one, 'iteration %d: ' % iteration, 1e-6, names.get)
    return nontrivial(case)


@st.composite
def outputs(draw):
    components = []
    for _ in range(draw(st.integers(1, 3))):
        kind = draw(st.sampled_from(['all', 'each', 'delayed']))
        columns = draw(genfields.fields(1, 3, positive=draw(st.booleans())))
        m = len(columns)
        size = draw(st.sampled_from([2, 2, 2, 3]))
        components.append({'kind': kind, 'columns': columns, 'diagonal': [draw(st.sampled_from([0.25, 1.0, 4.0])) for _ in range(m)], 'state': [draw(number) for _ in range(m)], 'std': [abs(draw(number)) for _ in range(m)],
                           'sample': [[draw(number) for _ in range(size)] for _ in range(m)]})
    step = draw(st.sampled_from([0.25, 1.0, 5.0]))
    return {'components': components, 'time': draw(st.integers(0, 60000)), 'latitudes': (lambda o, n: [o + step * i for i in range(n)])(draw(st.integers(-60, 40)) + 0.5, draw(st.integers(2, 5))),
            'longitudes': (lambda o, n: [o + step * i for i in range(n)])(draw(st.integers(-180, 140)) + 0.5, draw(st.integers(2, 5))), 'points': draw(st.sampled_from([[1, 1], [2, 2], [1, 3], [3, 1], [2, 3]])), 'blocking': draw(st.integers(1, 7)),
            'missing': draw(st.booleans())}


def averaged(case, columns, magnitudes):
    """design of cell averages: weights by cosine of latitude of points that share out the cell evenly"""
    lat, lon = case['latitudes'], case['longitudes']
    dlat, dlon = lat[1] - lat[0], lon[1] - lon[0]
    n, m = case['points']
    total, weights = 0.0, 0.0
    for i in range(n):
        for j in range(m):
            a = numpy.repeat(numpy.array(lat) - dlat / 2 + (i + 0.5) * dlat / n, len(lon))
            o = numpy.tile(numpy.array(lon) - dlon / 2 + (j + 0.5) * dlon / m, len(lat))
            w = numpy.cos(numpy.radians(a))
            x = genfields.matrix(columns, a, o, case['time'])
            total, weights = total + w[:, None] * (numpy.abs(x) if magnitudes else x), weights + w
    return total / weights[:, None]


@facet(outputs(), quick=300, thorough=5000, cost=4)
def gridded(case):
    """Output on a grid, pointwise and averaged over cells: values add up, uncertainties add up in quadrature."""
    storages, components = [], []
    for c in case['components']:
        storage = memory_storage(c['kind'])
        other = case['time'] + 1
        for write, x in (('state', c['state']), ('state_marginal_std', c['std']), ('state_sample', c['sample'])):
            x = numpy.array(x, float)
            if c['kind'] == 'all':
                getattr(storage, write + '_write')(x)
            else:
                getattr(storage, 'partial_' + write + '_write')(x + 1, other)
                getattr(storage, 'partial_' + write + '_write')(x, case['time'])
        components.append(CLASS[c['kind']](ComponentStorage_InMemory(genfields.Field(c['columns'], c['diagonal']), None), storage, sample_size=len(c['sample'][0])))
    system = AnalysisSystem(components, OBSERVABLE, log=io.StringIO())
    grid = OutputRectilinearGridStructure(case['time'], datetime(1850, 1, 1) + timedelta(days=case['time']), numpy.array(case['latitudes']), numpy.array(case['longitudes']))
    a, o = numpy.repeat(case['latitudes'], len(case['longitudes'])), numpy.tile(case['longitudes'], len(case['latitudes']))
    points = [genfields.matrix(c['columns'], a, o, case['time']) for c in case['components']]
    value = sum(p @ numpy.array(c['state']) for p, c in zip(points, case['components']))
    deviation = numpy.sqrt(sum((numpy.abs(p) @ numpy.array(c['std'])) ** 2 for p, c in zip(points, case['components'])))
    require_close(flat(quiet(system.evaluate_expected_value, 'MAP', grid, 'POINTWISE')), value, 'expected values on a grid', 1e-9, 1e-9)
    require_close(flat(quiet(system.evaluate_expected_value, 'post_STD', grid, 'POINTWISE')), deviation, 'uncertainties on a grid', 1e-9, 1e-9)
    sizes = {len(c['sample'][0]) for c in case['components']}
    if len(sizes) > 1:
        require(raises(ValueError, quiet, system.evaluate_projected_sample, grid), 'samples of different sizes are added')
    else:
        sample = sum(p @ numpy.array(c['sample']) for p, c in zip(points, case['components']))
        require_close(quiet(system.evaluate_projected_sample, grid), sample, 'samples on a grid', 1e-9, 1e-9)
    average = lambda field: flat(quiet(system.evaluate_expected_value, field, grid, 'GRID_CELL_AREA_AVERAGE', case['points'], case['blocking']))
    require_close(average('MAP'), sum(averaged(case, c['columns'], False) @ numpy.array(c['state']) for c in case['components']), 'cell averages', 1e-9, 1e-9)
    require_close(average('post_STD'), numpy.sqrt(sum((averaged(case, c['columns'], True) @ numpy.array(c['std'])) ** 2 for c in case['components'])), 'uncertainties of cell averages', 1e-9, 1e-9)
    for field, kind in (('MAP', 'AVERAGE'), ('mean', 'POINTWISE'), ('prior_STD', 'POINTWISE')):
        require(raises(ValueError, quiet, system.evaluate_expected_value, field, grid, kind), '%s %s is evaluated', field, kind)
    each = [c for c in case['components'] if c['kind'] == 'each']
    fraction = flat(quiet(system.evaluate_climatology_fraction, grid, case['points'], case['blocking']))
    require(fraction.shape == (len(a),), 'climatology fraction of shape %s', fraction.shape)
    if len(each) != 1:
        require(numpy.all(fraction == CLIMATOLOGY_FRACTION_FILL_VALUE), 'climatology fraction without exactly one local component: %s', fraction)
    elif each[0]['columns'][0][0] == 9.0:
        # the prior uncertainty is estimated from 1000 samples (2 to 3% error)
        prior = averaged(case, each[0]['columns'], True) @ (1.0 / numpy.sqrt(each[0]['diagonal']))
        posterior = averaged(case, each[0]['columns'], True) @ numpy.array(each[0]['std'])
        require_close(fraction, (posterior / prior) ** 2, 'climatology fraction', 0.35, 1e-12)
    return len(components) > 1
