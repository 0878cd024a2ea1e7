"""Cases: every kind of model element in generated configurations (mesh levels 0 to 2, regional views, harmonics, splines,
space-time lattices with and without wrapping, covariates read from files, biases), alone and in combinations of up to four,
with 0 to 7 places including poles and the date line, days over leap and ordinary years, and random states. Oracle: a
dense design computed independently from mesh geometry and basis functions; exact differences for the products of factors;
the same places split in two. A case is non-trivial when there are at least two places."""


import datetime
import json
import math
import os

import numpy
from hypothesis import strategies as st
from harness import facet, raises, require, require_close, scratch
import genelements as gen

from eustace.analysis.advanced_standard.elements.combination import CombinationElement, CombinationHyperparameters
from eustace.analysis.advanced_standard.elements.covariate import LoadCovariateElement



def compare(actual, expected, sure, what, atol=2e-6):
    actual = numpy.asarray(actual)
    require(actual.shape == expected.shape, '%s: shape %s for %s', what, actual.shape, expected.shape)
    require_close(actual[sure], expected[sure], what, 0, atol)


def split(case, first):
    """the same observations in two parts"""
    m = min(first, len(case['places']))
    for lo, hi in ((0, m), (m, len(case['places']))):
        yield lo, hi, dict(case, places=case['places'][lo:hi], effects={g: [[i - lo, j] for i, j in e if lo <= i < hi] for g, e in case['effects'].items()})


def examine(spec, case, seed, first):
    with scratch():
        element = gen.build(spec)
    n, m = len(case['places']), gen.states(spec)
    r = numpy.random.RandomState(seed)
    x, y = r.normal(size=m), r.normal(size=m)
    design = element.element_design(gen.Places(case))
    require(design.design_number_of_state_parameters() == m, 'number of state parameters %s for %s', design.design_number_of_state_parameters(), m)
    require(element.isnonlinear() == design.isnonlinear(), 'element and design disagree about being linear')
    factor = spec['kind'] == 'factor' or any(p['kind'] == 'factor' for p in spec.get('parts', []))
    require(design.isnonlinear() == factor, 'linear: %s', not design.isnonlinear())
    given = x.copy()
    value = design.design_function(x)
    require(numpy.array_equal(x, given), 'the state given is changed')
    if factor:
        sure = gen.certain(spec, case)
        compare(value, gen.function(spec, case, x), sure, 'function')
        J = design.design_jacobian(x).toarray()
        require(J.shape == (n, m), 'shape of derivative %s', J.shape)
        # exact for products of two linear functions
        compare(J.dot(y), (gen.function(spec, case, x + y) - gen.function(spec, case, x - y)) / 2, sure, 'derivative', 1e-5)
        start = design.design_initial_state()
        require(start.shape == (m,) and numpy.all(numpy.isfinite(start)), 'initial state %s', start.shape)
        if 'parts' in spec:
            # linear parts start from nought, others from the initial state they have alone
            with scratch():
                alone = [gen.build(p).element_design(gen.Places(case)) for p in spec['parts']]
            expected = [d.design_initial_state() if d.isnonlinear() else numpy.zeros(d.design_number_of_state_parameters()) for d in alone]
            require_close(start, numpy.concatenate(expected), 'initial state of a combination', 0, 0)
    else:
        A, sure = gen.design(spec, case)
        matrix = design.design_matrix()
        compare(matrix.toarray(), A, sure, 'design matrix')
        compare(design.design_jacobian(x).toarray(), A, sure, 'derivative')
        compare(value, A.dot(x), sure, 'function', 1e-5)
        compare(design.design_function(x, rectified=True), numpy.abs(A).dot(x), sure, 'function of magnitudes', 1e-5)
        require(numpy.array_equal(matrix.toarray(), design.design_matrix().toarray()), 'second design matrix differs')
        # states as a column, and samples of states one per column
        several = r.normal(size=(m, 3))
        compare(design.design_function(x[:, None]), A.dot(x)[:, None], sure, 'function of a column', 1e-5)
        compare(design.design_function(several), A.dot(several), sure, 'function of several states', 1e-5)
        if n and not numpy.any(A):
            require(matrix.shape == A.shape, 'shape of an empty design')
    if n:
        # many places at once
        times = 40
        repeated = dict(case, places=case['places'] * times, effects={g: [[i + k * n, j] for k in range(times) for i, j in e] for g, e in case['effects'].items()})
        compare(element.element_design(gen.Places(repeated)).design_function(x), numpy.tile(value, times), numpy.ones(n * times, bool), 'function at places repeated', 1e-5)
    for lo, hi, part in split(case, first):
        other = element.element_design(gen.Places(part))
        compare(other.design_function(x), value[lo:hi], numpy.ones(hi - lo, bool), 'function at places %d to %d alone' % (lo, hi), 1e-5)
    if n > 1:
        # the same places in the opposite order, and on another day, with the same element
        backwards = dict(case, places=case['places'][::-1], effects={g: [[n - 1 - i, j] for i, j in e] for g, e in case['effects'].items()})
        compare(element.element_design(gen.Places(backwards)).design_function(x), value[::-1], numpy.ones(n, bool), 'function at places in opposite order', 1e-5)
        later = dict(case, index=(case['index'] + 17.25) % 60, time=case['time'].replace(year=case['time'].year + 1) + datetime.timedelta(days=37) if (case['time'].month, case['time'].day) != (2, 29) else case['time'] + datetime.timedelta(days=37))
        compare(element.element_design(gen.Places(later)).design_function(x), gen.function(spec, later, x), gen.certain(spec, later), 'function on another day', 1e-5)
        compare(element.element_design(gen.Places(case)).design_function(x), value, numpy.ones(n, bool), 'function on the first day again', 1e-5)
    return n > 1


@facet(st.fixed_dictionaries({'spec': gen.specifications(), 'at': gen.observations(), 'seed': st.integers(0, 10 ** 6), 'first': st.integers(0, 7)}), quick=2400, thorough=30000, shards=5)
def one(case):
    """each element alone"""
    return examine(case['spec'], case['at'], case['seed'], case['first'])


@facet(st.fixed_dictionaries({'spec': gen.specifications(('factor',)), 'at': gen.observations(), 'seed': st.integers(0, 10 ** 6), 'first': st.integers(0, 7)}), quick=300, thorough=3000)
def factor(case):
    """product of a function of place and one of time"""
    return examine(case['spec'], case['at'], case['seed'], case['first'])


@facet(st.fixed_dictionaries({'spec': st.fixed_dictionaries({'kind': st.just('combination'), 'parts': st.lists(gen.specifications(tuple(gen.KINDS) + ('factor',)), min_size=1, max_size=4)}), 'at': gen.observations(), 'seed': st.integers(0, 10 ** 6), 'first': st.integers(0, 7)}), quick=1000, thorough=12000, shards=4)
def combined(case):
    """combinations"""
    return examine(case['spec'], case['at'], case['seed'], case['first'])


PACKAGE = 'eustace.analysis.advanced_standard.elements.'
grids = gen.specifications(('geography',))


@facet(st.fixed_dictionaries({'order': st.permutations(['latitude_harmonics', 'altitude', 'coastal_influence']), 'count': st.integers(1, 3), 'altitude': grids, 'coastal_influence': grids, 'at': gen.observations(), 'amplitudes': st.lists(st.floats(0.01, 50), min_size=6, max_size=6), 'seed': st.integers(0, 10 ** 6), 'bad': st.booleans()}), quick=120, thorough=1500)
def described(case):
    """covariates described in a file: non-trivial when there are several"""
    chosen = case['order'][:case['count']]
    data, parts, x = {}, [], []
    with scratch():
        for name in chosen:
            if name == 'latitude_harmonics':
                spec = {'kind': 'harmonics'}
                data[name] = {'element': {'python_class': PACKAGE + 'latitudeharmonics.LatitudeHarmonicsElement'}, 'hyperparameters': {'harmonic_%d' % k: v for k, v in enumerate(case['amplitudes'][:4])}}
            else:
                spec = case[name]
                filename = os.path.abspath(name + '.nc')
                gen.write_geography(spec, filename)
                data[name] = {'element': {'python_class': PACKAGE + 'geography_based.GeographyBasedElement', 'parameters': {'filename': filename, 'latitude_label': 'lat', 'longitude_label': 'lon', 'covariate_label': 'height', 'rescale_factor': spec['scale']}},
                              'hyperparameters': {'global_amplitude': case['amplitudes'][4 if name == 'altitude' else 5]}}
            parts.append(spec)
            x += [math.log(v) for v in data[name]['hyperparameters'].values()]
        if case['bad']:
            data['salinity'] = data[chosen[0]]
        with open('covariates.json', 'w') as stream:
            json.dump(data, stream)
        loader = LoadCovariateElement('covariates.json')
        if case['bad']:
            require(raises(ValueError, loader.check_keys), 'unknown covariate accepted')
            return False
        loader.check_keys()
        elements, parameters = loader.load_covariates_and_hyperparameters()
    spec = {'kind': 'combination', 'parts': parts}
    combination, h = CombinationElement(elements), CombinationHyperparameters(parameters)
    A, sure = gen.design(spec, case['at'])
    compare(combination.element_design(gen.Places(case['at'])).design_matrix().toarray(), A, sure, 'design matrix')
    require_close(h.get_array(), numpy.array(x), 'hyperparameters', 1e-12, 1e-12)
    require_close(combination.element_prior(h).prior_precision().toarray(), gen.precision(spec, numpy.array(x)), 'prior precision', 1e-9, 0)
    return len(chosen) > 1
