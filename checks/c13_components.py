"""Cases: an element with a whole-number design matrix per batch of observations (or a nonlinear one, f(x) = Ax + c(Bx)^2),
1 to 4 state parameters (or, from a seed, up to 300), a random prior precision, 1 to 13 time steps in any order with 0 to 3 batches of 1 to 11 observations
(errors of neighbours correlated or not),
time steps processed again with other observations, several iterations, in-memory and file storage. Oracle: the dense Gaussian
posterior (Q + A'RA)^-1 A'R(y - offset). A case is non-trivial when at least two batches were given and two state parameters exist."""

import io
import os
import pickle
from contextlib import redirect_stdout

import numpy
import scipy.sparse
from hypothesis import strategies as st
from harness import facet, raises, require, require_close, scratch

from eustace.analysis.advanced_standard.components import storage_files, storage_files_batch
from eustace.analysis.advanced_standard.components.spacetime import SpaceTimeComponent
from eustace.analysis.advanced_standard.components.spatial import SpatialComponent
from eustace.analysis.advanced_standard.components.spatialdelayed import DelayedSpatialComponent
from eustace.analysis.advanced_standard.components.storage_inmemory import ComponentStorage_InMemory, SpaceTimeComponentSolutionStorage_InMemory, SpatialComponentSolutionStorage_InMemory
from eustace.analysis.advanced_standard.elements.element import Element, ElementLinearDesign, ElementNonlinearDesign, ElementPrior, ObservationStructure

number = st.integers(-40, 40).map(lambda x: x / 8.0)
coefficient = st.sampled_from([0.0, 0.0, 1.0, -1.0, 2.0, -0.5, 0.25])


@st.composite
def batches(draw, n):
    m = draw(st.sampled_from([1, 2, 3, 4, 4, 11]))
    return {'a': [[draw(coefficient) for _ in range(n)] for _ in range(m)], 'b': [[draw(coefficient) for _ in range(n)] for _ in range(m)],
            'y': [draw(number) for _ in range(m)], 'p': [draw(st.sampled_from([0.5, 1.0, 2.0, 4.0, 100.0])) for _ in range(m)],
            'o': [draw(number) for _ in range(m)], 'c': draw(st.sampled_from([0.0, 0.0, 0.25, -0.4]))}


def precision(batch):
    """Precision of the errors of a batch; those of neighbouring observations may be correlated."""
    root = numpy.sqrt(numpy.array(batch['p']))
    m = len(root)
    return root[:, None] * (numpy.eye(m) + batch['c'] * (numpy.eye(m, k=1) + numpy.eye(m, k=-1))) * root


@st.composite
def cases(draw):
    n = draw(st.integers(1, 4))
    l = [[0.0] * n for _ in range(n)]
    for i in range(n):
        for j in range(i):
            l[i][j] = draw(st.sampled_from([0.0, 1.0, -1.0, 0.5]))
        l[i][i] = draw(st.sampled_from([1.0, 0.5, 2.0, 3.0]))
    times = draw(st.lists(st.integers(0, 60000), min_size=1, max_size=draw(st.sampled_from([4, 4, 4, 13])), unique=True))
    steps = [[t, draw(st.lists(batches(n), max_size=3))] for t in times]
    for _ in range(draw(st.integers(0, 2))):
        steps.append([draw(st.sampled_from(times)), draw(st.lists(batches(n), min_size=1, max_size=2))])
    return {'l': l, 'steps': steps, 'query': draw(batches(n)), 'iterations': draw(st.integers(1, 3)), 'curve': draw(st.sampled_from([0.125, 0.0625])),
            'start': [draw(number) for _ in range(n)], 'files': draw(st.booleans()), 'missing': draw(st.integers(60001, 60005))}


class Prior(ElementPrior):
    def __init__(self, l):
        self.q = numpy.array(l) @ numpy.array(l).T

    def prior_number_of_state_parameters(self):
        return self.q.shape[0]

    def prior_precision(self):
        return scipy.sparse.csr_matrix(self.q)


class Linear(ElementLinearDesign):
    def __init__(self, batch):
        self.a = numpy.array(batch['a'])

    def design_number_of_state_parameters(self):
        return self.a.shape[1]

    def design_matrix(self):
        return scipy.sparse.csr_matrix(self.a)


class Curved(ElementNonlinearDesign):
    def __init__(self, batch, curve, start):
        self.a, self.b, self.curve, self.start = numpy.array(batch['a']), numpy.array(batch['b']), curve, start

    def design_number_of_state_parameters(self):
        return self.a.shape[1]

    def design_initial_state(self):
        return numpy.array(self.start)

    def design_function(self, currentstate, rectified=False):
        x = numpy.array(currentstate).ravel()
        return self.a @ x + self.curve * (self.b @ x) ** 2

    def design_jacobian(self, currentstate):
        x = numpy.array(currentstate).ravel()
        return scipy.sparse.csr_matrix(self.a + 2 * self.curve * (self.b @ x)[:, None] * self.b)


class AnElement(Element):
    def __init__(self, case, nonlinear):
        super().__init__()
        self.case, self.nonlinear = case, nonlinear

    def isnonlinear(self):
        return self.nonlinear

    def element_design(self, observationstructure):
        batch = observationstructure.batch
        return Curved(batch, self.case['curve'], self.case['start']) if self.nonlinear else Linear(batch)

    def element_prior(self, hyperparameters):
        return Prior(self.case['l'])


class Batch(ObservationStructure):
    def __init__(self, time, batch):
        self.time, self.batch = time, batch
        self.vector, self.matrix = numpy.array(batch['y']), scipy.sparse.csr_matrix(precision(batch))

    def unchanged(self):
        require(numpy.array_equal(self.vector, self.batch['y']) and numpy.array_equal(self.matrix.toarray(), precision(self.batch)), 'observations given are changed')

    def time_index(self):
        return self.time

    def number_of_observations(self):
        return len(self.batch['y'])

    def observation_vector(self):
        return self.vector

    def observation_precision(self):
        return self.matrix


def process(solution, time, batch):
    given, offset = Batch(time, batch), numpy.array(batch['o'])
    solution.process_observations(given, offset)
    given.unchanged()
    require(numpy.array_equal(offset, batch['o']), 'the offset given is changed')


class Reference:
    def __init__(self, case, nonlinear):
        self.case, self.nonlinear, self.q = case, nonlinear, Prior(case['l']).q

    def increments(self, batch, x):
        design = Curved(batch, self.case['curve'], self.case['start']) if self.nonlinear else Linear(batch)
        j = design.design_jacobian(x).toarray()
        r = numpy.array(batch['y']) - numpy.array(batch['o'])
        if self.nonlinear:
            r = r - design.design_function(x)
        w = j.T @ precision(batch)
        return w @ j, w @ r

    def solve(self, increments, x):
        q, i = self.q.copy(), numpy.zeros(len(self.q))
        for dq, di in increments:
            q, i = q + dq, i + di
        state = numpy.linalg.solve(q, i)
        return (state + x if self.nonlinear else state), q

    def value(self, batch, x):
        return Curved(batch, self.case['curve'], self.case['start']).design_function(x) if self.nonlinear else numpy.array(batch['a']) @ x


def flat(x):
    return numpy.array(x).ravel()


def quiet(f, *args):
    with redirect_stdout(io.StringIO()):
        return f(*args)


def check_sample(sample, precision, size, what):
    """The sample is a set of deviations from the posterior mean: whitened by the posterior precision it is standard normal."""
    sample = numpy.array(sample)
    require(sample.shape == (len(precision), size), what + ' has the wrong shape: ' + str(sample.shape))
    white = numpy.linalg.cholesky(precision).T @ sample
    require_close(white.mean(axis=1), numpy.zeros(len(precision)), what + ' is not centred', rtol=0, atol=8 / size ** 0.5)
    require_close(white @ white.T / size, numpy.eye(len(precision)), what + ' does not have the covariance of the distribution', rtol=0, atol=12 / size ** 0.5)


def label(case):
    return len(case['l']) > 1 and sum(len(b) for _, b in case['steps']) > 1


def spatial_storage(case, folder, extra=()):
    """Where a spatial solution is kept: in memory, or in files listed by time."""
    if not case['files']:
        return SpatialComponentSolutionStorage_InMemory(), None
    times = sorted({t for t, _ in case['steps']} | set(extra))
    kinds = ['state', 'marginal_std_', 'sample_', 'prior_sample_']
    names = {kind: [os.path.join(folder, kind, 'at{0}.pickle'.format(t)) for t in times] for kind in kinds}
    lists = {}
    for kind in kinds:
        lists[kind + 'filelist_write'] = names[kind]
        lists[kind + 'filelist_read'] = names[kind]
    return storage_files_batch.SpatialComponentSolutionStorageIndexed_Files(time_list=times, **lists), times


@facet(cases(), quick=400, thorough=4000, cost=6)
def spatial(case):
    """A spatial component has, at every time step, the posterior of the observations of that time step alone."""
    size = 400
    reference = Reference(case, False)
    with scratch() as folder:
        storage, listed = spatial_storage(case, folder)
        component = SpatialComponent(ComponentStorage_InMemory(AnElement(case, False), None), storage, compute_uncertainties=True, compute_sample=True, sample_size=size, compute_prior_sample=True)
        solution = component.component_solution()
        expected = {}
        for time, given in case['steps']:
            for batch in given:
                process(solution, time, batch)
            if given:
                require(raises(ValueError, quiet, solution.process_observations, Batch(time + 1, given[0]), numpy.array(given[0]['o'])), 'observations of another time are accepted before the time step is complete')
                expected[time] = reference.solve([reference.increments(b, None) for b in given], None)
            quiet(solution.update_time_step)
        quiet(solution.update)
        query = case['query']
        a = numpy.array(query['a'])
        for fresh in (solution, component.component_solution()):
            for time, (state, precision) in expected.items():
                require_close(flat(fresh.solution_observation_expected_value(Batch(time, query))), a @ state, 'expected value of a spatial component', rtol=1e-8, atol=1e-8)
                deviation = numpy.sqrt(numpy.diag(numpy.linalg.inv(precision)))
                require_close(flat(fresh.solution_observation_expected_uncertainties(Batch(time, query))), numpy.abs(a) @ deviation, 'uncertainty of a spatial component', rtol=1e-8, atol=1e-8)
                sample = storage.partial_state_sample_read(time)
                check_sample(sample, precision, size, 'sample of a spatial component')
                require_close(numpy.array(fresh.solution_observation_projected_sample(Batch(time, query))), a @ numpy.array(sample), 'projected sample', rtol=1e-9, atol=1e-9)
                prior = numpy.array(storage.partial_state_prior_sample_read(time))
                check_sample(prior.reshape(len(precision), size), reference.q, size, 'prior sample')
            if listed is None:
                unknown = Batch(case['missing'], query)
                require_close(flat(fresh.solution_observation_expected_value(unknown)), numpy.zeros(len(a)), 'expected value at a time without solution', rtol=0, atol=0)
                require_close(flat(fresh.solution_observation_expected_uncertainties(unknown)), numpy.zeros(len(a)), 'uncertainty at a time without solution', rtol=0, atol=0)
                require(numpy.array_equal(fresh.solution_observation_projected_sample(unknown), numpy.zeros((len(a), size))), 'projected sample at a time without solution')
        return label(case)


def spacetime_storage(case, folder, times):
    if not case['files']:
        return SpaceTimeComponentSolutionStorage_InMemory()
    storage = storage_files.SpaceTimeComponentSolutionStorage_Files(
        statefilename_write=os.path.join(folder, 'new', 'state'), marginal_std_filename_write=os.path.join(folder, 'std'), sample_filename_write=os.path.join(folder, 'sample'),
        prior_sample_filename_write=os.path.join(folder, 'prior'), measurementfilelist_read=[os.path.join(folder, 'm', str(k)) if len(case['steps']) % 2 else os.path.join(folder, 'm', str(k), 'measurement') for k in range(len(times))])
    return storage


@facet(st.tuples(cases(), st.booleans()), quick=400, thorough=4000, cost=6)
def spacetime(given_case):
    """A space-time component has one posterior of the latest observations of all time steps; nonlinear ones are relinearised."""
    case, nonlinear = given_case
    size = 400
    reference = Reference(case, nonlinear)
    n = len(reference.q)
    with scratch() as folder:
        times = []
        for t, given in case['steps']:
            if given and t not in times:
                times.append(t)
        storage = spacetime_storage(case, folder, times)
        component = SpaceTimeComponent(ComponentStorage_InMemory(AnElement(case, nonlinear), None), storage, compute_uncertainties=True, compute_sample=True, sample_size=size)
        query = Batch(case['steps'][0][0], case['query'])
        first = flat(component.component_solution().solution_observation_expected_value(query))
        require_close(first, reference.value(case['query'], numpy.array(case['start'])) if nonlinear else numpy.zeros(len(case['query']['y'])), 'expected value before any solution', rtol=1e-12, atol=1e-12)
        require_close(flat(component.component_solution().solution_observation_expected_uncertainties(query)), numpy.zeros(len(case['query']['y'])), 'uncertainty before any solution', rtol=0, atol=0)
        state = numpy.array(case['start'])
        if case['files']:
            if not times:
                return False
        for iteration in range(case['iterations'] if nonlinear else 2):
            latest = {}
            before = state
            for t, given in case['steps']:
                solution = component.component_solution()
                # a day of observations is one time step: with files the steps of a catalogue are numbered from nought
                key = times.index(t) if case['files'] and t in times else t
                if case['files']:
                    if not given:
                        continue
                    storage.measurement_time_index_write = key
                    storage.measurementfilename_write = storage.measurementfilelist_read[key]
                for batch in given:
                    process(solution, key, batch)
                if given:
                    require(raises(ValueError, solution.process_observations, Batch(key + 1, given[0]), numpy.array(given[0]['o'])), 'observations of another time are accepted before the time step is complete')
                    latest[t] = [reference.increments(b, before) for b in given]
                solution.update_time_step()
            if nonlinear and not latest:
                return False
            merged = quiet(component.component_solution().merge_updates)
            every = [x for t in latest for x in latest[t]]
            if every:
                require_close(merged.information_precision.toarray(), sum(x[0] for x in every), 'merged precision', rtol=1e-9, atol=1e-9)
                require_close(flat(merged.information_vector), sum(x[1] for x in every), 'merged information', rtol=1e-9, atol=1e-9)
            if case['files'] and nonlinear:
                storage.statefilename_read = storage.statefilename_write
            quiet(component.component_solution().update)
            if case['files']:
                storage.statefilename_read, storage.marginal_std_filename_read, storage.sample_filename_read = storage.statefilename_write, storage.marginal_std_filename_write, storage.sample_filename_write
            state, precision = reference.solve(every, before)
            if numpy.abs(state).max() > 1e4:
                return False
            require_close(flat(storage.state_read()), state, 'state of a space-time component', rtol=1e-6, atol=1e-7)
            state = flat(storage.state_read())
            fresh = component.component_solution()
            require_close(flat(fresh.solution_observation_expected_value(query)), reference.value(case['query'], state), 'expected value', rtol=1e-6, atol=1e-6)
            deviation = numpy.sqrt(numpy.diag(numpy.linalg.inv(precision)))
            require_close(flat(storage.state_marginal_std_read()), deviation, 'marginal standard deviation', rtol=1e-6, atol=1e-8)
            check_sample(storage.state_sample_read(), precision, size, 'sample of a space-time component')
            if not nonlinear:
                a = numpy.array(case['query']['a'])
                require_close(flat(fresh.solution_observation_expected_uncertainties(query)), numpy.abs(a) @ deviation, 'uncertainty', rtol=1e-8, atol=1e-8)
                require_close(numpy.array(fresh.solution_observation_projected_sample(query)), a @ numpy.array(storage.state_sample_read()), 'projected sample', rtol=1e-9, atol=1e-9)
        prior = SpaceTimeComponent(ComponentStorage_InMemory(AnElement(case, nonlinear), None), storage, compute_sample=True, sample_size=size, compute_prior_sample=True)
        kept = flat(storage.state_read())
        quiet(prior.component_solution().update)
        if case['files']:
            storage.prior_sample_filename_read = storage.prior_sample_filename_write
        check_sample(storage.state_prior_sample_read(), reference.q, size, 'prior sample of a space-time component')
        require(numpy.array_equal(kept, flat(storage.state_read())), 'drawing a prior sample changed the solution')
        return label(case)


@facet(st.tuples(cases(), st.booleans(), st.sampled_from([1, 400])), quick=250, thorough=3000, cost=6)
def delayed(given_case):
    """A delayed spatial component keeps the observations of each time step and gives each its own posterior on update."""
    case, nonlinear, size = given_case
    reference = Reference(case, nonlinear)
    with scratch() as folder:
        times = sorted({t for t, given in case['steps'] if given})
        if case['files']:
            kinds = ['statefiledictionary', 'marginal_std_filedictionary', 'sample_filedictionary', 'measurementfiledictionary']
            names = {kind: {t: os.path.join(folder, kind, str(t)) for t in times} for kind in kinds}
            storage = storage_files.DelayedSpatialComponentSolutionStorage_Files(**{kind + '_write': names[kind] for kind in kinds})
            storage.measurementfiledictionary_read = names['measurementfiledictionary']
            if not times:
                return False
        else:
            storage = SpatialComponentSolutionStorage_InMemory()
        component = DelayedSpatialComponent(ComponentStorage_InMemory(AnElement(case, nonlinear), None), storage, compute_uncertainties=True, compute_sample=True, sample_size=size)
        state = {t: numpy.array(case['start']) for t in times}
        for iteration in range(case['iterations']):
            latest = {}
            for t, given in case['steps']:
                if not given:
                    continue
                solution = component.component_solution()
                for batch in given:
                    process(solution, t, batch)
                    if case['files'] and nonlinear:
                        storage.statefiledictionary_read = names['statefiledictionary']
                        for other in times:
                            if not os.path.exists(names['statefiledictionary'][other]):
                                os.makedirs(os.path.dirname(names['statefiledictionary'][other]), exist_ok=True)
                                with open(names['statefiledictionary'][other], 'wb') as f:
                                    pickle.dump(numpy.array(case['start']), f)
                require(raises(ValueError, solution.process_observations, Batch(t + 1, given[0]), numpy.array(given[0]['o'])), 'observations of another time are accepted before the time step is complete')
                solution.update_time_step()
                latest[t] = [reference.increments(b, state[t]) for b in given]
            quiet(component.component_solution().update)
            if case['files']:
                storage.statefiledictionary_read = names['statefiledictionary']
                storage.marginal_std_filedictionary_read = names['marginal_std_filedictionary']
                storage.sample_filedictionary_read = names['sample_filedictionary']
            fresh = component.component_solution()
            query = case['query']
            for t in times:
                state[t], precision = reference.solve(latest[t], state[t])
                if numpy.abs(state[t]).max() > 1e4:
                    return False
                require_close(flat(storage.partial_state_read(t)), state[t], 'state of a delayed spatial component', rtol=1e-6, atol=1e-7)
                state[t] = flat(storage.partial_state_read(t))
                deviation = numpy.sqrt(numpy.diag(numpy.linalg.inv(precision)))
                require_close(flat(storage.partial_state_marginal_std_read(t)), deviation, 'marginal standard deviation', rtol=1e-6, atol=1e-8)
                require_close(flat(fresh.solution_observation_expected_value(Batch(t, query))), reference.value(query, state[t]), 'expected value', rtol=1e-6, atol=1e-6)
                if not nonlinear:
                    a = numpy.array(query['a'])
                    require_close(flat(fresh.solution_observation_expected_uncertainties(Batch(t, query))), numpy.abs(a) @ deviation, 'uncertainty', rtol=1e-8, atol=1e-8)
                    projected = numpy.array(fresh.solution_observation_projected_sample(Batch(t, query)))
                    require(projected.shape == (len(a), size), 'projected sample has the wrong shape: ' + str(projected.shape))
                    if size > 1:
                        cover = a @ numpy.linalg.inv(precision) @ a.T
                        require_close(projected @ projected.T / size, cover, 'covariance of the projected sample', rtol=0, atol=12 / size ** 0.5 * max(1e-12, cover.diagonal().max()))
            require_close(flat(fresh.solution_observation_expected_value(Batch(case['missing'], query))), numpy.zeros(len(query['y'])), 'expected value at a time without solution', rtol=0, atol=0)
        return label(case)


@facet(st.tuples(cases(), st.booleans()), quick=60, thorough=800, cost=3)
def approximate(given_case):
    """Uncertainties by sampling: near the exact ones, of the posterior and of the prior; none unless asked for."""
    case, wanted = given_case
    reference = Reference(case, False)
    query = dict(case['query'], a=numpy.abs(case['query']['a']).tolist())
    a = numpy.array(query['a'])

    def near(actual, expected, what, share):
        actual, expected = flat(actual), flat(expected)
        require(actual.shape == expected.shape and numpy.all(numpy.abs(actual - expected) <= share * expected + 1e-12), what + ': %s, exact %s', actual.tolist(), expected.tolist())
    every, steps = [], {}
    for t, given in case['steps']:
        if given:
            steps[t] = [reference.increments(b, None) for b in given]
    one, each = SpaceTimeComponentSolutionStorage_InMemory(), SpatialComponentSolutionStorage_InMemory()
    # (exact uncertainties without being asked for, or approximate ones)
    options = {'compute_uncertainties': wanted, 'method': 'APPROXIMATED'}
    components = [kind(ComponentStorage_InMemory(AnElement(case, False), None), storage, **options) for kind, storage in ((SpaceTimeComponent, one), (SpatialComponent, each))]
    for component in components:
        solution = component.component_solution()
        for t, given in case['steps']:
            for batch in given:
                process(solution, t, batch)
            quiet(solution.update_time_step)
        quiet(solution.update)
    state, q = reference.solve([x for s in steps.values() for x in s], None)
    require_close(flat(one.state_read()), state, 'state', rtol=1e-6, atol=1e-7)
    if wanted:
        near(one.state_marginal_std_read(), numpy.sqrt(numpy.diag(numpy.linalg.inv(q))), 'uncertainty of a space-time component by sampling', 0.55)
    else:
        require(one.state_marginal_std_read() is None and one.state_sample_read() is None, 'uncertainties are stored without being asked for')
    for t in steps:
        state, q = reference.solve(steps[t], None)
        require_close(flat(each.partial_state_read(t)), state, 'state', rtol=1e-6, atol=1e-7)
        if wanted:
            near(each.partial_state_marginal_std_read(t), numpy.sqrt(numpy.diag(numpy.linalg.inv(q))), 'uncertainty of a spatial component by sampling', 0.55)
        else:
            require(each.partial_state_marginal_std_read(t) is None and each.partial_state_sample_read(t) is None, 'uncertainties are stored without being asked for')
    prior = numpy.sqrt(numpy.diag(numpy.linalg.inv(reference.q)))
    solution = components[1].component_solution()
    near(solution.solution_prior_std(), prior, 'standard deviation of the prior by sampling', 0.2)
    near(solution.solution_observation_prior_uncertainties(Batch(case['steps'][0][0], query)), a @ prior, 'uncertainty of the prior at observations', 0.2)
    return len(steps) > 0


KINDS = ['state', 'state_marginal_std', 'state_sample', 'state_prior_sample']
arrays = st.lists(number, min_size=1, max_size=4)


@facet(st.tuples(st.lists(st.tuples(st.sampled_from(KINDS + ['measurement']), st.integers(0, 3), arrays), max_size=12), st.sampled_from(['memory', 'files', 'delayed', 'flexible', 'indexed', 'indexed-plain'])), quick=200, thorough=3000, cost=2)
def storage_by_time(case):
    """What was written last for a quantity and a time is what is read for them, whatever else was written."""
    writes, kind = case
    times = [3, 25004, 40, 7] if kind != 'indexed-plain' else [0, 1, 2, 3]
    with scratch() as folder:
        def name(what, t):
            return os.path.join(folder, what, 'x{0}'.format(t))

        def make(t=None):
            if kind == 'memory':
                return memory
            if kind == 'files':
                prefix = {'state': 'statefilename', 'state_marginal_std': 'marginal_std_filename', 'state_sample': 'sample_filename', 'state_prior_sample': 'prior_sample_filename'}
                options = {}
                for what, start in prefix.items():
                    options[start + '_write'] = name(what, t)
                    options[start + '_read'] = name(what, t) if os.path.exists(name(what, t)) else None
                return storage_files.SpatialComponentSolutionStorage_Files(time_index=t, **options)
            if kind == 'delayed':
                prefix = {'state': 'statefiledictionary', 'state_marginal_std': 'marginal_std_filedictionary', 'state_sample': 'sample_filedictionary', 'state_prior_sample': 'prior_sample_filedictionary', 'measurement': 'measurementfiledictionary'}
                options = {}
                for what, start in prefix.items():
                    options[start + '_write'] = {x: name(what, x) for x in times}
                    options[start + '_read'] = {x: name(what, x) for x in times if os.path.exists(name(what, x))}
                return storage_files.DelayedSpatialComponentSolutionStorage_Files(**options)
            if kind == 'flexible':
                prefix = {'state': 'state', 'state_marginal_std': 'marginal_std', 'state_sample': 'sample', 'state_prior_sample': 'prior_sample', 'measurement': 'measurement'}
                options = {}
                for what, start in prefix.items():
                    options[start + '_write_pattern'] = options[start + '_read_pattern'] = [os.path.join(folder, what), 'x%Y%m%d']
                return storage_files.DelayedSpatialComponentSolutionStorageFlexible_Files(**options)
            prefix = {'state': 'statefilelist', 'state_marginal_std': 'marginal_std_filelist', 'state_sample': 'sample_filelist', 'state_prior_sample': 'prior_sample_filelist', 'measurement': 'measurementfilelist'}
            options = {}
            for what, start in prefix.items():
                options[start + '_write'] = options[start + '_read'] = [name(what, x) for x in times]
            return storage_files_batch.SpatialComponentSolutionStorageIndexed_Files(time_list=times if kind == 'indexed' else None, **options)

        memory = SpatialComponentSolutionStorage_InMemory()
        written = {}
        for what, index, values in writes:
            if what == 'measurement' and kind == 'files':
                continue
            t = times[index]
            method = 'measurement_write' if what == 'measurement' else 'partial_' + what + '_write'
            getattr(make(t), method)(numpy.array(values), t)
            written[what, t] = values
        for what in KINDS + ['measurement']:
            for t in times:
                method = 'measurement_read' if what == 'measurement' else 'partial_' + what + '_read'
                if (what, t) in written:
                    got = getattr(make(t), method)(t)
                    require(got is not None and numpy.array_equal(got, written[what, t]), 'what was stored is not what is read: %s, %s at %s', kind, what, t)
                elif what != 'measurement' and kind in ('memory', 'files', 'delayed', 'flexible'):
                    require(getattr(make(t), method)(t) is None, 'something is read that was never stored: %s, %s at %s', kind, what, t)
        return len(written) > 1


@facet(st.tuples(st.lists(st.tuples(st.sampled_from(KINDS), arrays), max_size=8), st.booleans(), st.sampled_from(['memory', 'files', 'batched'])), quick=120, thorough=2000, cost=2)
def storage_of_all(case):
    """The same for quantities that are not kept by time, read by the same object or by another."""
    writes, keep, kind = case
    prefix = {'state': 'statefilename', 'state_marginal_std': 'marginal_std_filename', 'state_sample': 'sample_filename', 'state_prior_sample': 'prior_sample_filename'}
    with scratch() as folder:
        options = {}
        for what, start in prefix.items():
            options[start + '_write'] = os.path.join(folder, what, 'x')
            options[start + '_read'] = os.path.join(folder, what, 'x')
        if kind == 'memory':
            one = other = SpaceTimeComponentSolutionStorage_InMemory()
        elif kind == 'files':
            one, other = [storage_files.SpaceTimeComponentSolutionStorage_Files(**options) for _ in range(2)]
        else:
            one, other = storage_files_batch.SpaceTimeComponentSolutionStorageBatched_Files(keep_in_memory=keep, **options), storage_files_batch.SpaceTimeComponentSolutionStorageBatched_Files(keep_in_memory=False, **options)
        written = {}
        for what, values in writes:
            getattr(one, what + '_write')(numpy.array(values))
            written[what] = values
            for storage in (one, other):
                for known, expected in written.items():
                    got = getattr(storage, known + '_read')()
                    require(numpy.array_equal(got, expected), 'what was stored is not what is read: %s, %s', kind, known)
        if kind == 'memory':
            for what in set(KINDS) - set(written):
                require(getattr(one, what + '_read')() is None, 'something is read that was never stored: %s', what)
        return len(written) > 1


def spread(spec):
    """A case of many state parameters and observations, numbers taken from a seed."""
    random = numpy.random.RandomState(spec['seed'])
    n = spec['n']
    l = numpy.diag(random.choice([1.0, 0.5, 2.0, 3.0], n))
    for i, j in zip(random.randint(0, n, 2 * n), random.randint(0, n, 2 * n)):
        if i > j:
            l[i, j] = random.choice([0.25, -0.5, 0.5])

    def batch(m):
        a = numpy.where(random.rand(m, n) < 4.0 / n, random.choice([1.0, -1.0, 2.0, -0.5, 0.25], (m, n)), 0.0)
        b = numpy.where(random.rand(m, n) < 2.0 / n, random.choice([1.0, -1.0, 0.5], (m, n)), 0.0)
        return {'a': a.tolist(), 'b': b.tolist(), 'y': random.randint(-40, 40, m).astype(float).tolist(), 'p': random.choice([0.5, 1.0, 2.0, 4.0, 100.0], m).tolist(),
                'o': random.randint(-10, 10, m).astype(float).tolist(), 'c': float(random.choice([0.0, 0.25, -0.4]))}
    steps = [[t, [batch(m) for m in sizes]] for t, sizes in spec['steps']]
    return {'l': l.tolist(), 'steps': steps, 'query': batch(7), 'iterations': 1, 'curve': 0.0625, 'start': random.randint(-2, 3, n).astype(float).tolist(),
            'files': spec['files'], 'missing': 60001}


sizes = st.lists(st.sampled_from([1, 3, 40, 150, 700]), max_size=3)
large = st.fixed_dictionaries({'seed': st.integers(0, 10 ** 6), 'n': st.one_of(st.integers(5, 30), st.integers(31, 120), st.sampled_from([128, 300])), 'files': st.booleans(),
                               'steps': st.lists(st.tuples(st.integers(0, 60000), sizes).map(list), min_size=1, max_size=5, unique_by=lambda s: s[0])})


@facet(st.tuples(large, st.sampled_from(['spatial', 'spacetime', 'delayed'])), quick=60, thorough=1200, cost=20, shards=2)
def many_parameters(case):
    """The same of components of up to 300 state parameters and some hundreds of observations."""
    full = spread(case[0])
    if case[1] == 'spatial':
        spatial(full)
    elif case[1] == 'spacetime':
        spacetime((full, False))
    else:
        delayed((full, False, 400))
    return any(len(s) for _, s in case[0]['steps'])
