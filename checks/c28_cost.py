"""Cases: precisions of every kind of model element (alone or combined) and generated families of dense precisions, one to three
replicates of up to eight observations with any design, precision, prior mean and set point, two hyperparameter vectors each; and
components with observations on up to three days which are solved and tuned. Oracle: the dense Gaussian density of the observations
with covariance H Q^-1 H' + R, and its derivative by complex step. A case is non-trivial when there are at least two hyperparameters
(for tuning: when the hyperparameters changed)."""

import datetime
import io
import os
import uuid
from contextlib import redirect_stdout

import numpy
import scipy.sparse
import sksparse.cholmod
from hypothesis import strategies as st
from harness import facet, require, require_close, scratch
import genelements as gen
from support import python2_binary_files

from eustace.analysis.advanced_standard.components.spatialdelayed import DelayedSpatialComponent
from eustace.analysis.advanced_standard.components.storage_inmemory import ComponentStorage_InMemory, SpatialComponentSolutionStorage_InMemory
from eustace.analysis.advanced_standard.linalg.costfunction import MarginalGaussianCF, MarginalGaussianReplicateCF_InMemory
from eustace.analysis.advanced_standard.linalg.optimize import Optimizer
from eustace.analysis.advanced_standard.optimizationsystem import OptimizationSystem
from eustace.analysis.advanced_standard.fileio import optimization_inputs
from eustace.analysis.fileio import observationsource_rawbinary as raw
from eustace.analysis.observationsource import Observations
from eustace.analysis.advanced_standard.elements.local_view import ExtendedCombinationHyperparameters

python2_binary_files()


def quiet(f, *args, **kwargs):
    with redirect_stdout(io.StringIO()):
        return f(*args, **kwargs)


def logdet(M):
    sign, size = numpy.linalg.slogdet(M)
    return numpy.log(sign) + size if numpy.iscomplexobj(M) else size


def density(Q, replicates):
    """negative log density of the observations of all replicates"""
    total = 0.0
    for H, p, y, mean in replicates:
        S = H @ numpy.linalg.solve(Q, H.T.astype(Q.dtype)) + numpy.diag(1.0 / p)
        r = y - H @ mean
        total = total + 0.5 * (len(y) * numpy.log(2 * numpy.pi) + logdet(S) + r @ numpy.linalg.solve(S, r.astype(S.dtype)))
    return total


class Family:
    """Precisions made of generated parts, with unequal powers of the hyperparameters"""

    def __init__(self, seed, states, parameters):
        r = numpy.random.RandomState(seed)
        self.parts = []
        for _ in range(parameters):
            L = r.randn(states, states) * (r.rand(states, states) < 0.5)
            self.parts.append(L @ L.T + 0.05 * numpy.eye(states))
        self.powers = r.choice([-2.0, -1.0, 1.0, 0.5], (parameters, parameters))

    def precision(self, x):
        return sum(numpy.exp(self.powers[k] @ x) * P for k, P in enumerate(self.parts))

    def Q(self, x, *extra):
        return scipy.sparse.csc_matrix(self.precision(numpy.asarray(x)))

    def dQ(self, x, *extra):
        j = extra[-1]
        return scipy.sparse.csc_matrix(sum(self.powers[k, j] * numpy.exp(self.powers[k] @ numpy.asarray(x)) * P for k, P in enumerate(self.parts)))


def generate(r, states, count, scale):
    result = []
    for _ in range(count):
        m = r.randint(1, 9)
        H = r.choice([0.0, 0.0, 1.0, -1.0, 0.3, 2.0], (m, states))
        result.append((H, r.choice([0.5, 1.0, 4.0, 25.0], m), scale * r.randn(m) * 3, r.choice([0.0, 1.0]) * r.randn(states)))
    return result


def compare(Q, dQ, precision, points, replicates, r, extra):
    """cost and derivative of the code against the densities at several points"""
    states = replicates[0][0].shape[1]
    increments = [(H.T @ (p * y), scipy.sparse.csc_matrix((H.T * p) @ H)) for H, p, y, _ in replicates]
    means = [mean for _, _, _, mean in replicates]
    settings = [r.randn(states) for _ in replicates]
    several = MarginalGaussianReplicateCF_InMemory(Q, dQ)
    arguments = (settings, means, [i for i, _ in increments], [q for _, q in increments], extra)
    def costs(x):
        values = [quiet(several.cost_function, x, *arguments)]
        slopes = [quiet(several.cost_derivative, x, *arguments)]
        single, slope = 0.0, 0.0
        for n, (i, q) in enumerate(increments):
            one = MarginalGaussianCF(settings[n], Q, dQ)
            single += quiet(one.cost_function, x, means[n], i, q, extra)
            slope = slope + quiet(one.cost_derivative, x, means[n], i, q, extra)
        return values + [single], slopes + [slope]
    found = [costs(x) for x in points]
    expected = [density(precision(x), replicates) for x in points]
    for which in range(2):
        name = ['several replicates', 'single replicates'][which]
        for k in range(1, len(points)):
            size = max(abs(v) for v in expected) + abs(found[0][0][which]) + abs(found[k][0][which]) + 1.0
            require_close(found[k][0][which] - found[0][0][which], expected[k] - expected[0], 'change of cost (%s)' % name, 0, 1e-6 * size)
        for k, x in enumerate(points):
            chosen = range(len(x)) if len(x) <= 8 else sorted(set(r.randint(0, len(x), 5).tolist()))
            require(len(found[k][1][which]) == len(x), 'length of derivative %s', numpy.shape(found[k][1][which]))
            for j in chosen:
                step = numpy.array(x, complex)
                step[j] += 1e-30j
                rate = numpy.imag(density(precision(step), replicates)) / 1e-30
                scale = 1.0 + abs(rate) + states + sum(abs(m @ (precision(x) @ m)) for m in settings) * 1e-3
                require_close(found[k][1][which][j], rate, 'derivative %d of cost (%s)' % (j, name), 0, 1e-5 * scale)


@facet(st.fixed_dictionaries({'seed': st.integers(0, 10 ** 6), 'states': st.integers(1, 8), 'parameters': st.integers(1, 4), 'replicates': st.integers(1, 3), 'scale': st.sampled_from([1.0, 0.1, 10.0]), 'extra': st.integers(0, 2)}), quick=700, thorough=9000, shards=4)
def families(case):
    """Generated families of precisions"""
    r = numpy.random.RandomState(case['seed'])
    family = Family(case['seed'], case['states'], case['parameters'])
    points = [r.uniform(-1, 1, case['parameters']) for _ in range(3)]
    compare(family.Q, family.dQ, family.precision, points, generate(r, case['states'], case['replicates'], case['scale']), r, tuple(range(case['extra'])))
    return case['parameters'] > 1


KINDS = tuple(k for k in gen.KINDS if k != 'geography')


@facet(st.fixed_dictionaries({'spec': gen.specifications(KINDS), 'seed': st.integers(0, 10 ** 6), 'replicates': st.integers(1, 2)}), quick=220, thorough=3000, cost=4, shards=5)
def elements(case):
    """Precisions of model elements"""
    spec = case['spec']
    r = numpy.random.RandomState(case['seed'])
    element = gen.build(spec)
    centre = gen.vector(spec, r)
    points = [centre, centre + r.uniform(-0.3, 0.3, len(centre))]
    if any(numpy.linalg.cond(gen.precision(spec, x)) > 1e8 for x in points):
        return False
    def Q(x):
        return element.element_prior(gen.hyperparameters(spec, x)).prior_precision().tocsc()
    def dQ(x, j):
        return element.element_prior(gen.hyperparameters(spec, x)).prior_precision_derivative(j).tocsc()
    compare(Q, dQ, lambda x: gen.precision(spec, x), points, generate(r, gen.states(spec), case['replicates'], 1.0), r, ())
    return len(centre) > 1


class Measured(gen.Places):
    def __init__(self, case, y, p):
        gen.Places.__init__(self, case)
        self.y, self.p = numpy.array(y), numpy.array(p)

    def observation_vector(self):
        return self.y

    def observation_precision(self):
        return scipy.sparse.diags(self.p, format='csr')


@st.composite
def tunings(draw):
    spec = draw(gen.specifications(('local', 'near', 'super', 'mean', 'harmonics', 'spline', 'seasonal', 'local', 'spatialbias', 'bias')))
    if draw(st.integers(0, 2)) == 0:
        spec = {'kind': 'combination', 'parts': [spec, draw(gen.specifications(('mean', 'bias', 'local')))]}
    days = []
    for k in range(draw(st.integers(1, 3))):
        days.append([dict(draw(gen.observations(least=2, most=7)), index=k * 7) for _ in range(draw(st.integers(1, 2)))])
    return {'spec': spec, 'days': days, 'seed': draw(st.integers(0, 10 ** 6)), 'stored': draw(st.booleans())}


@facet(tunings(), quick=200, thorough=2500, cost=4, shards=5)
def tuning(case):
    """Tuning leaves hyperparameters which are no worse"""
    spec = case['spec']
    r = numpy.random.RandomState(case['seed'])
    element = gen.build(spec)
    first = gen.vector(spec, r) * 0.5
    kept = lambda: gen.hyperparameters(spec, first)
    if case['stored']:
        given = ExtendedCombinationHyperparameters([kept()])
        class Wrapped:
            """element whose hyperparameters come in a collection of one"""
            def element_prior(self, h):
                return element.element_prior(h.elementparameters[0])
            def element_design(self, observationstructure):
                return element.element_design(observationstructure)
            def isnonlinear(self):
                return element.isnonlinear()
        used = Wrapped()
    else:
        given, used = kept(), element
    component = DelayedSpatialComponent(ComponentStorage_InMemory(used, given), SpatialComponentSolutionStorage_InMemory())
    solution = component.component_solution()
    replicates = []
    n = gen.states(spec)
    for day in case['days']:
        rows, values, weights = [numpy.zeros((0, n))], [], []
        for places in day:
            m = len(places['places'])
            y, p = r.randn(m) * 1.5 + 0.5, r.choice([1.0, 4.0, 10.0], m)
            observations = Measured(places, y, p)
            offset = r.randn(m)
            quiet(solution.process_observations, observations, offset)
            rows.append(element.element_design(observations).design_matrix().toarray())
            values.extend(y - offset)
            weights.extend(p)
        quiet(solution.update_time_step)
        replicates.append((numpy.vstack(rows), numpy.array(weights), numpy.array(values), numpy.zeros(n)))
    quiet(solution.update)
    before = density(gen.precision(spec, first), replicates)
    with scratch():
        try:
            if case['stored']:
                other = DelayedSpatialComponent(ComponentStorage_InMemory(used, ExtendedCombinationHyperparameters([gen.hyperparameters(spec, first + 1.0)])), SpatialComponentSolutionStorage_InMemory())
                before_it = case['seed'] % 2
                quiet(OptimizationSystem([other] * before_it + [component] + [other], None).optimize_component, before_it, 'tuned.npy')
                require_close(other.storage.hyperparameters_read().get_array(), first + 1.0, 'hyperparameters of another component', 0, 0)
                after = numpy.load('tuned.npy')
                require_close(component.storage.hyperparameters_read().get_array(), after, 'stored hyperparameters', 0, 0)
            else:
                quiet(solution.optimize)
                after = component.storage.hyperparameters_read().get_array()
        except sksparse.cholmod.CholmodNotPositiveDefiniteError:
            return False
    require(after.shape == first.shape and numpy.all(numpy.isfinite(after)), 'hyperparameters %s', after)
    if numpy.array_equal(after, first):
        return False
    reached = gen.precision(spec, after)
    if not numpy.all(numpy.isfinite(reached)) or numpy.linalg.cond(reached) > 1e9:
        return False
    end = density(reached, replicates)
    require(end <= before + 1e-5 * (1 + abs(before)), 'tuning from %s gives %s, for which the cost is %s and not at most %s', first, after, end, before)
    rates = []
    for j in range(len(after)):
        step = numpy.array(after, complex)
        step[j] += 1e-30j
        rates.append(numpy.imag(density(gen.precision(spec, step), replicates)) / 1e-30)
    require(numpy.max(numpy.abs(rates)) < 1e-3, 'tuning reports success at %s, where the derivative is %s', after, rates)
    return True


class Bowl:
    """quadratic cost with its derivative"""

    def __init__(self, A, c):
        self.A, self.c = A, c

    def cost_function(self, x, shift, *rest):
        return float(0.5 * (x - self.c - shift) @ self.A @ (x - self.c - shift))

    def cost_derivative(self, x, shift, *rest):
        return self.A @ (x - self.c - shift)


@facet(st.fixed_dictionaries({'seed': st.integers(0, 10 ** 6), 'n': st.integers(1, 5), 'rest': st.integers(0, 2)}), quick=300, thorough=3000)
def paths(case):
    """The optimiser finds the lowest place of a bowl and records its path"""
    r = numpy.random.RandomState(case['seed'])
    L = r.randn(case['n'], case['n'])
    bowl = Bowl(L @ L.T / case['n'] + numpy.eye(case['n']), r.randn(case['n']))
    start, shift = r.randn(case['n']), r.randn()
    optimizer = Optimizer(start.copy(), bowl, cost_function_args=(shift,) + tuple(range(case['rest'])))
    quiet(optimizer.fit)
    require(optimizer.result.success, 'no success')
    require_close(optimizer.result.x, bowl.c + shift, 'lowest place', 0, 1e-4)
    path = numpy.array(optimizer.optim_path)
    require_close(path[0], start, 'start of the path', 0, 0)
    require_close(path[-1], optimizer.result.x, 'end of the path', 0, 0)
    cost = [bowl.cost_function(x, shift) for x in path]
    require(all(b <= a + 1e-12 for a, b in zip(cost, cost[1:])), 'cost along the path %s', cost)
    return case['n'] > 1


@st.composite
def recorded(draw):
    locations = draw(st.lists(st.tuples(st.floats(-89, 89), st.floats(-179, 359)), min_size=1, max_size=6))
    days = draw(st.lists(st.integers(30000, 30020), min_size=1, max_size=4, unique=True))
    number = st.integers(1, 2000).map(lambda x: x / 64.0)
    rows = lambda: [[k, draw(number), draw(number)] for k in range(len(locations)) if k == 0 or draw(st.integers(0, 3))]
    sources = lambda: [{'mobile': draw(st.integers(0, 2)) == 0, 'computed': draw(st.integers(0, 2)) == 0, 'rows': [rows(), rows()], 'moved': draw(st.integers(-1, 1))} for _ in range(draw(st.integers(1, 2)))]
    return {'locations': [list(p) for p in locations], 'days': [{'day': d, 'hour': draw(st.sampled_from([0, 0, 6, 18])), 'sources': sources()} for d in days],
            'chosen': draw(st.permutations(range(len(days))))[:draw(st.integers(1, len(days)))], 'level': draw(st.integers(0, 1)), 'mean': draw(st.booleans()), 'offset': draw(number)}


class Shift:
    """another component, with the same expected value everywhere"""

    def __init__(self, value):
        self.value = value

    def component_solution(self):
        return self

    def solution_observation_expected_value(self, observations):
        return numpy.full(observations.number_of_observations(), self.value)


@facet(recorded(), quick=150, thorough=2000, shards=2)
def days_of_inputs(case):
    """The inputs recorded for each day are those the component is given for it, and of the days asked for alone"""
    epoch = datetime.datetime(1850, 1, 1)
    expected = {}
    spec = {'kind': 'mean'} if case['mean'] else {'kind': 'local', 'level': case['level']}
    element = gen.build(spec)
    with scratch() as folder:
        os.chdir(folder)
        fixed = uuid.UUID(int=7)
        table = numpy.array(case['locations'], float).T
        raw.LocationLookupRawBinaryWriter().write('fixed.bin', raw.LocationLookupWithID(fixed, table))
        raw.LocalCorrelationRangeRawBinaryWriter().write('ranges.bin', [])
        summaries, keys = [], []
        for d in case['days']:
            when = epoch + datetime.timedelta(days=d['day'], hours=d['hour'])
            total = numpy.zeros(gen.states(spec)), numpy.zeros((gen.states(spec), gen.states(spec)))
            described = []
            for s, source in enumerate(d['sources']):
                prefix = '%d_%d_' % (d['day'], s)
                mine, identifier = table, fixed
                if source['mobile']:
                    mine, identifier = table + numpy.array([[source['moved'] * 0.5], [0.0]]), uuid.UUID(int=d['day'] * 10 + s)
                    raw.LocationLookupRawBinaryWriter().write(prefix + 'mobile.bin', raw.LocationLookupWithID(identifier, mine))
                names = ['Tmin', 'Tmax'] if source['computed'] else ['Tmean']
                for name, rows in zip(names, source['rows']):
                    column = lambda k, kind: numpy.array([r[k] for r in rows], kind)
                    raw.ObservationRawBinaryWriter().write_day(prefix + name + '.bin', identifier, Observations(numpy.zeros(len(rows), bool), numpy.full(len(rows), float(d['day'])), column(0, numpy.uint64), column(1, float), column(2, float), []), d['day'])
                described.append({'name': prefix, 'observable_filenames': {name: prefix + name + '.bin' for name in names}, 'local_correlation_ranges_filenames': {name: 'ranges.bin' for name in names},
                                  'fixed_location_lookup_filename': None if source['mobile'] else 'fixed.bin', 'mobile_location_lookup_filenames': {name: prefix + 'mobile.bin' for name in names} if source['mobile'] else None})
                rows = source['rows'][0]
                if source['computed']:
                    other = {r[0]: r for r in source['rows'][1]}
                    rows = [[r[0], (r[1] + other[r[0]][1]) / 2.0, numpy.sqrt((r[2] ** 2 + other[r[0]][2] ** 2) / 2.0)] for r in rows if r[0] in other]
                places = gen.Places({'places': [[mine[0, r[0]], mine[1, r[0]] - (360 if mine[1, r[0]] >= 180 else 0)] for r in rows], 'effects': {}, 'index': d['day'], 'time': when})
                H = element.element_design(places).design_matrix().toarray()
                p = numpy.array([1.0 / r[2] ** 2 for r in rows])
                total[0][:] += H.T @ (p * (numpy.array([r[1] for r in rows]) - case['offset']))
                total[1][:] += H.T @ (p[:, None] * H)
            expected[d['day']] = total
            keys.append(when.isoformat())
            summaries.append('inputs/%d.json' % d['day'])
            quiet(optimization_inputs.input_summary, when, summaries[-1], described)
        quiet(optimization_inputs.merge_input_summaries, summaries, 'merged/all.json')
        descriptor = quiet(optimization_inputs.generate_input_descriptor, 'merged/all.json')
        require(list(descriptor) == keys, 'times of inputs %s instead of %s', list(descriptor), keys)
        component = DelayedSpatialComponent(ComponentStorage_InMemory(element, gen.hyperparameters(spec, numpy.zeros(gen.parameters(spec)))), SpatialComponentSolutionStorage_InMemory())
        system = OptimizationSystem([Shift(case['offset']), component], 'Tmean')
        quiet(system.update_component, descriptor, 1, [keys[k] for k in case['chosen']])
        stored = component.solutionstorage
        chosen = [case['days'][k]['day'] for k in case['chosen']]
        require(sorted(stored.timeindices_read()) == sorted(chosen), 'days %s instead of %s', sorted(stored.timeindices_read()), sorted(chosen))
        for day in chosen:
            measured = stored.measurement_read(day)
            scale = 1.0 + numpy.abs(expected[day][1]).max()
            require_close(numpy.asarray(measured.information_vector).ravel(), expected[day][0], 'information of day %d' % day, 1e-6, 1e-6 * scale * 40)
            require_close(measured.information_precision.toarray(), expected[day][1], 'precision of information of day %d' % day, 1e-6, 1e-7 * scale)
    return len(case['days']) > 1
