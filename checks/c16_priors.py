"""Cases: every kind of model element in generated configurations, alone and in combinations of up to four, with
hyperparameters drawn around the spacing of its nodes (scales over four orders of magnitude). Oracle: a dense precision
computed independently, its derivative with respect to each hyperparameter by complex step, positive eigenvalues of the
scaled matrix; vectors of hyperparameters written and read back, in memory and in files. A case is non-trivial when the
precision is not diagonal."""

import numpy
from hypothesis import strategies as st
from harness import facet, require, require_close, scratch
import genelements as gen

from eustace.analysis.advanced_standard.elements.combination import CombinationHyperparameters
from eustace.analysis.advanced_standard.elements.local_view import ExpandedLocalHyperparameters, ExtendedCombinationHyperparameters, GeneralHyperparameters


def examine(spec, seed):
    r = numpy.random.RandomState(seed)
    with scratch():
        element = gen.build(spec)
    x = gen.vector(spec, r)
    h = gen.hyperparameters(spec, x)
    require_close(h.get_array(), x, 'hyperparameters as a vector', 0, 0)
    prior = element.element_prior(h)
    m = gen.states(spec)
    require(prior.prior_number_of_state_parameters() == m, 'number of state parameters %s for %s', prior.prior_number_of_state_parameters(), m)
    Q = prior.prior_precision().toarray()
    expected = gen.precision(spec, x)
    require(Q.shape == (m, m), 'shape %s', Q.shape)
    d = 1 / numpy.sqrt(numpy.diag(expected))
    unit = lambda M: d[:, None] * M * d[None, :]
    require_close(unit(Q), unit(expected), 'precision', 0, 1e-9)
    require_close(unit(Q), unit(Q).T, 'symmetry', 0, 1e-10)
    if m <= 300 and numpy.linalg.eigvalsh(unit(expected)).min() > 1e-9:
        require(numpy.linalg.eigvalsh(unit(Q)).min() > 0, 'not positive definite')
    chosen = range(len(x)) if len(x) <= 8 else sorted(set(r.randint(0, len(x), 6).tolist()))
    for k in chosen:
        step = numpy.array(x, complex)
        step[k] += 1e-30j
        rate = numpy.imag(gen.precision(spec, step)) / 1e-30
        dQ = prior.prior_precision_derivative(k)
        require(dQ.shape == (m, m), 'shape of derivative %s', dQ.shape)
        require_close(unit(dQ.toarray()), unit(rate), 'derivative %d of %d' % (k, len(x)), 0, 1e-8)
    # other values set in the same object
    y = gen.vector(spec, r)
    h.set_array(numpy.array(y))
    require_close(h.get_array(), y, 'hyperparameters set as a vector', 0, 0)
    second = gen.precision(spec, y)
    e = 1 / numpy.sqrt(numpy.diag(second))
    require_close(e[:, None] * element.element_prior(h).prior_precision().toarray() * e[None, :], e[:, None] * second * e[None, :], 'precision of the values set', 0, 1e-9)
    return bool(numpy.any(expected != numpy.diag(numpy.diag(expected))))


ALL = tuple(gen.KINDS) + ('factor',)


@facet(st.fixed_dictionaries({'spec': gen.specifications(ALL), 'seed': st.integers(0, 10 ** 6)}), quick=900, thorough=10000, shards=5)
def one(case):
    """each element alone"""
    return examine(case['spec'], case['seed'])


@facet(st.fixed_dictionaries({'parts': st.lists(gen.specifications(tuple(k for k in ALL if k != 'spline')), min_size=1, max_size=4), 'seed': st.integers(0, 10 ** 6)}), quick=400, thorough=5000, shards=4)
def combined(case):
    """combinations"""
    return examine({'kind': 'combination', 'parts': case['parts']}, case['seed'])


values = st.lists(st.floats(-50, 50), min_size=1, max_size=6)


@facet(st.fixed_dictionaries({'parts': st.lists(gen.specifications(('local', 'mean', 'varying', 'seasonal', 'harmonics', 'kronecker')), min_size=1, max_size=3), 'general': st.lists(st.tuples(st.sampled_from(['log_sigma', 'log_rho', 'a', 'z']), values), min_size=1, max_size=4, unique_by=lambda p: p[0]), 'seed': st.integers(0, 10 ** 6)}), quick=200, thorough=2500)
def saved(case):
    """hyperparameters written to files and read back"""
    r = numpy.random.RandomState(case['seed'])
    spec = {'kind': 'combination', 'parts': case['parts']}
    x, y = 8 * gen.vector(spec, r), gen.vector(spec, r)
    with scratch():
        a = ExtendedCombinationHyperparameters(gen.hyperparameters(spec, x).elementparameters)
        b = ExtendedCombinationHyperparameters(gen.hyperparameters(spec, y).elementparameters)
        a.values_to_npy_savefile('a.npy')
        b.values_from_npy_savefile('a.npy')
        require_close(b.get_array(), x, 'combination read back', 0, 0)
        require_close(a.get_array(), x, 'combination after writing', 0, 0)
        ranges = a.get_element_ranges()
        require([list(k) for k in ranges] == [list(range(sum(gen.parameters(s) for s in case['parts'][:i]), sum(gen.parameters(s) for s in case['parts'][:i + 1]))) for i in range(len(case['parts']))], 'ranges %s', ranges)
        n = r.randint(1, 9)
        u = ExpandedLocalHyperparameters(r.normal(size=n), r.normal(size=n))
        v = ExpandedLocalHyperparameters(numpy.zeros(n), numpy.zeros(n))
        u.values_to_npy_savefile('u.npy')
        v.values_from_npy_savefile('u.npy')
        require_close(v.log_sigma, u.log_sigma, 'standard deviations read back', 0, 0)
        require_close(v.log_rho, u.log_rho, 'ranges read back', 0, 0)
        general = dict(case['general'])  # in any order
        g = GeneralHyperparameters(**{k: numpy.array(w) for k, w in general.items()})
        flat = numpy.hstack([general[k] for k in sorted(general)])
        require_close(g.get_array(), flat, 'general hyperparameters', 0, 0)
        g.set_array(flat[::-1].copy())
        require_close(g.get_array(), flat[::-1], 'general hyperparameters set', 0, 0)
        changed, start = {k: len(w) for k, w in general.items()}, 0
        for k in sorted(general):
            require_close(getattr(g, k), flat[::-1][start:start + changed[k]], 'hyperparameter %s' % k, 0, 0)
            start += changed[k]
        g.values_to_npy_savefile('g.npy')
        back = GeneralHyperparameters.init_from_npy_savefile('g.npy')
        require_close(back.get_array(), flat[::-1], 'general hyperparameters read back', 0, 0)
        require(sorted(back.get_dictionary()) == sorted(general), 'names %s', sorted(back.get_dictionary()))
    return True
