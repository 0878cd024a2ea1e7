"""Cases: sparse symmetric positive-definite matrices of 1 to 14 rows (banded, lattice, random patterns, arrow, with whole-number
Cholesky factors whose fill-in cancels, unsorted indices), right-hand sides of every accepted shape, order and type, block
sizes; measurements in any number and order. Oracle: dense linear algebra with NumPy. Wrong shapes, formats and singular rows
must be refused. A case is non-trivial when the matrix has an entry off its diagonal and at least three rows."""

import warnings

import numpy
import scipy.sparse
import sksparse.cholmod
from hypothesis import strategies as st
from harness import facet, raises, require, require_close

from eustace.analysis.advanced_standard.linalg import qinv, sparse
from eustace.analysis.advanced_standard.linalg.extendedcholmodwrapper import ExtendedCholmodWrapper
from eustace.analysis.advanced_standard.linalg.linearsystem import LinearSystem, LinearSystemSolution_CG, LinearSystemSolution_Cholesky, MeasurementUpdate
from eustace.analysis.advanced_standard.linalg.pardisowrapper import PardisoWrapper

warnings.simplefilter('ignore')
value = st.floats(-3, 3).map(lambda x: round(x, 3))


@st.composite
def matrices(draw, most=14):
    n = draw(st.integers(1, most))
    kind = draw(st.sampled_from(['pattern', 'pattern', 'band', 'arrow', 'lattice', 'factor', 'factor', 'diagonal']))
    a = numpy.zeros((n, n))
    if kind == 'factor':
        l = numpy.zeros((n, n))
        for i in range(n):
            l[i, i] = draw(st.sampled_from([1.0, 1.0, 2.0]))
        for _ in range(draw(st.integers(0, 2 * n))):
            i, j = draw(st.integers(0, n - 1)), draw(st.integers(0, n - 1))
            if i > j:
                l[i, j] = draw(st.sampled_from([1.0, -1.0, 1.0, 2.0]))
        order = draw(st.permutations(range(n)))
        return (l @ l.T)[numpy.ix_(order, order)]
    if kind == 'pattern':
        pairs = [(draw(st.integers(0, n - 1)), draw(st.integers(0, n - 1))) for _ in range(draw(st.integers(0, 3 * n)))]
    elif kind == 'band':
        w = draw(st.integers(1, 3))
        pairs = [(i, j) for i in range(n) for j in range(max(0, i - w), i)]
    elif kind == 'arrow':
        c = draw(st.integers(0, n - 1))
        pairs = [(i, c) for i in range(n)]
    elif kind == 'lattice':
        w = draw(st.integers(1, n))
        pairs = [(i, i - 1) for i in range(n) if i % w] + [(i, i - w) for i in range(w, n)]
    else:
        pairs = []
    for i, j in pairs:
        if i != j:
            a[i, j] = a[j, i] = draw(value)
    scale = draw(st.sampled_from([1.0, 1.0, 0.01, 1000.0]))
    for i in range(n):
        a[i, i] = numpy.abs(a[i]).sum() + draw(st.floats(0.1, 3))
    return a * scale


def csr(a, shuffle):
    m = scipy.sparse.csr_matrix(a)
    if shuffle:
        for i in range(m.shape[0]):
            s = slice(m.indptr[i], m.indptr[i + 1])
            m.indices[s], m.data[s] = m.indices[s][::-1].copy(), m.data[s][::-1].copy()
        m.has_sorted_indices = False
    return m


def trivial(a):
    return not (a.shape[0] >= 3 and numpy.count_nonzero(a - numpy.diag(numpy.diag(a))))


def norm_check(x, a, b, what):
    """|x|^2 of each column equals b' inverse(a) b"""
    require_close(numpy.sum(numpy.asarray(x) ** 2, axis=0).ravel(), numpy.sum(b * numpy.linalg.solve(a, b), axis=0).ravel(), what, 1e-7, 1e-9)


@facet(st.fixed_dictionaries({'a': matrices(), 'b': st.lists(st.integers(-5, 5), min_size=1, max_size=40), 'columns': st.integers(1, 4), 'order': st.booleans(), 'shuffle': st.booleans(),
                              'block': st.one_of(st.none(), st.integers(1, 16))}), quick=500, thorough=10000, shards=2)
def pardiso(case):
    """the direct solver used by the analysis"""
    a, n = case['a'], len(case['a'])
    b = numpy.array([case['b'][k % len(case['b'])] + 0.25 * (k % 7) for k in range(n * case['columns'])], float).reshape(n, case['columns'], order='F' if case['order'] else 'C')
    m = csr(a, case['shuffle'])
    f = PardisoWrapper.cholesky(m)
    require_close(m.toarray(), a, 'the matrix after factorisation')
    expected = numpy.linalg.solve(a, b)
    tol = (1e-8, 1e-9 * max(1.0, numpy.abs(expected).max()))
    before = b.copy()
    for _ in range(2):
        x = f.solve_A(b)
        require(x.shape == b.shape, 'shape of the solution %s', x.shape)
        require_close(x, expected, 'solution', *tol)
        require(numpy.array_equal(b, before), 'the right-hand side is changed')
    require_close(numpy.asarray(f.solve_A(scipy.sparse.csc_matrix(b))), expected, 'solution for a sparse right-hand side', *tol)
    v = b[:, 0].copy()
    require_close(f.solve_A(v), expected[:, 0], 'solution for a vector', *tol)
    norm_check(f.solve_forward_substitution(b), a, b, 'forward substitution')
    y = numpy.asarray(f.solve_backward_substitution(b))
    require_close(numpy.sum(y * a.dot(y), axis=0), numpy.sum(b * b, axis=0), 'x\'Ax after backward substitution', 1e-7, 1e-9)
    transform = numpy.asarray(f.solve_backward_substitution(numpy.eye(n)))
    require_close(transform @ transform.T, numpy.linalg.inv(a), 'covariance of transformed white noise', 1e-7, 1e-9 * max(1.0, numpy.abs(numpy.linalg.inv(a)).max()))
    d = f.diag_inv_A() if case['block'] is None else f.diag_inv_A(max_blocksize=case['block'])
    require_close(numpy.asarray(d).ravel(), numpy.diag(numpy.linalg.inv(a)), 'diagonal of the inverse', 1e-7, 1e-12)
    require_close(numpy.asarray(f.diag_inv_A(max_blocksize=None)).ravel(), numpy.diag(numpy.linalg.inv(a)), 'diagonal of the inverse at once', 1e-7, 1e-12)
    f.free_memory()
    return not trivial(a)


@facet(st.fixed_dictionaries({'a': matrices(), 'how': st.integers(0, 6), 'where': st.integers(0, 13)}), quick=150, thorough=2000)
def pardiso_refuses(case):
    """what is not a sparse positive-definite system in the accepted form is refused"""
    a, n = case['a'], len(case['a'])
    m = csr(a, False)
    how = case['how']
    if how == 0:
        require(raises((ValueError,), PardisoWrapper.cholesky, m.tocsc()), 'a CSC matrix is accepted')
    elif how == 1:
        require(raises((ValueError,), PardisoWrapper.cholesky, scipy.sparse.csr_matrix(numpy.hstack((a, a[:, :1])))), 'a matrix that is not square is accepted')
    elif how == 2:
        w = case['where'] % n
        z = a.copy()
        z[w, :] = 0
        z[:, w] = 0
        require(raises((ValueError,), PardisoWrapper.cholesky, scipy.sparse.csr_matrix(z)), 'an empty row is accepted')
    elif how == 3:
        require(raises((TypeError,), PardisoWrapper.cholesky, m.astype(numpy.float32)), 'a matrix of float32 is accepted')
    elif how == 4:
        f = PardisoWrapper.cholesky(m)
        for method in (f.solve_A, f.solve_backward_substitution, f.solve_forward_substitution):
            require(raises((ValueError,), method, numpy.zeros(n + 1)), 'a right-hand side that is too long is accepted')
    elif how == 5:
        f = PardisoWrapper.cholesky(m)
        for method in (f.solve_A, f.solve_backward_substitution, f.solve_forward_substitution):
            require(raises((TypeError,), method, numpy.zeros(n, numpy.float32)), 'a right-hand side of float32 is accepted')
    else:
        w = case['where'] % n
        z = a.copy()
        z[w, w] = -1.0
        require(raises((Exception,), PardisoWrapper.cholesky, scipy.sparse.csr_matrix(z)), 'a matrix that is not positive definite is accepted')
    return not trivial(a)


@facet(st.fixed_dictionaries({'a': matrices(), 'b': st.lists(st.integers(-5, 5), min_size=1, max_size=40), 'columns': st.integers(1, 4)}), quick=400, thorough=8000)
def cholmod(case):
    """the other direct solver"""
    a, n = case['a'], len(case['a'])
    b = numpy.array([case['b'][k % len(case['b'])] + 0.25 * (k % 7) for k in range(n * case['columns'])], float).reshape(n, case['columns'])
    f = ExtendedCholmodWrapper.cholesky(scipy.sparse.csc_matrix(a))
    expected = numpy.linalg.solve(a, b)
    tol = (1e-8, 1e-9 * max(1.0, numpy.abs(expected).max()))
    require_close(f.solve_A(b), expected, 'solution', *tol)
    require_close(numpy.asarray(f.solve_A(b[:, 0])).ravel(), expected[:, 0], 'solution for a vector', *tol)
    y = numpy.asarray(f.solve_backward_substitution(b))
    require_close(numpy.sum(y * a.dot(y), axis=0), numpy.sum(b * b, axis=0), 'x\'Ax after backward substitution', 1e-7, 1e-9)
    require_close(f.logdet(), numpy.linalg.slogdet(a)[1], 'log determinant', 1e-8, 1e-8)
    p = f.P()
    require(sorted(int(k) for k in p) == list(range(n)), 'permutation %s', p)
    require_close(numpy.asarray(f.apply_P(b)), b[p], 'permuted')
    require_close(numpy.asarray(f.apply_Pt(f.apply_P(b))), b, 'permuted and back')
    norm_check(f.LLt_solve_L(f.apply_P(b)), a, b, 'forward substitution')
    f.cholesky_inplace(scipy.sparse.csc_matrix(a * 2))
    require_close(numpy.asarray(f.solve_A(b)), expected / 2, 'solution after refactorisation', *tol)
    return not trivial(a)


@facet(st.fixed_dictionaries({'a': matrices(), 'seed': st.integers(0, 10 ** 6), 'given': st.booleans(), 'rows': st.integers(1, 6)}), quick=700, thorough=15000, shards=2)
def partial_inverse(case):
    """selected inverse, traces and marginal variances from it"""
    a, n = case['a'], len(case['a'])
    q = scipy.sparse.csc_matrix(a)
    inverse = numpy.linalg.inv(a)
    tol = (1e-7, 1e-9 * max(1e-3, numpy.abs(inverse).max()))
    f = sksparse.cholmod.cholesky(q) if case['given'] else None
    got = qinv.Q_inv(q, f) if case['given'] else qinv.Q_inv(q)
    require(got.shape == (n, n), 'shape %s', got.shape)
    got = got.toarray()
    where = (a != 0)
    require_close(got[where], inverse[where], 'elements of the inverse', *tol)
    require_close(got[got != 0], inverse[got != 0], 'elements given beyond those asked for', *tol)
    require_close(q.toarray(), a, 'the matrix')
    r = numpy.random.RandomState(case['seed'])
    d = numpy.where(where, r.randint(-3, 4, size=a.shape), 0).astype(float)
    d = d + d.T
    expected = numpy.trace(inverse @ d)
    dq = scipy.sparse.csc_matrix(d)
    f = sksparse.cholmod.cholesky(q)
    scale = (1e-7, 1e-8 * max(1.0, numpy.abs(inverse).max() * numpy.abs(d).sum()))
    for kwargs in ({}, {'fQ': f}, {'iQp': qinv.Q_inv(q, f)}, {'fQ': f, 'iQp': qinv.Q_inv(q)}):
        require_close(sparse.trace_iQ_dQdp(q, dq, **kwargs), expected, 'trace with %s' % sorted(kwargs), *scale)
    require_close(sparse.marginal_variance_Q_inv(q), numpy.diag(inverse), 'marginal variances', *tol)
    # rows whose pairs of columns are all among the non-zeros
    A = numpy.zeros((case['rows'], n))
    for i in range(case['rows']):
        j = r.randint(n)
        A[i, j] = 1 + r.randint(3)
        k = numpy.nonzero(where[j])[0]
        A[i, k[r.randint(len(k))]] = 2.5
    if numpy.abs(inverse[(A.T @ A) != 0]).min() > 1e-9 * numpy.abs(inverse).max():  # refused, to be safe, when such an element of the inverse happens to be nought
        require_close(sparse.marginal_variance_Q_inv(q, scipy.sparse.csr_matrix(A)), numpy.diag(A @ inverse @ A.T), 'marginal variances of combinations', *scale)
    return not trivial(a)


@facet(st.fixed_dictionaries({'n': st.sampled_from([40, 130, 1001, 1400]), 'width': st.integers(2, 40), 'columns': st.sampled_from([1, 3, 70]), 'seed': st.integers(0, 10 ** 6)}), quick=16, thorough=150, shards=4, cost=10)
def large(case):
    """lattices of more rows than the solvers treat at once: non-trivial with more than one block"""
    n, w = case['n'], case['width']
    r = numpy.random.RandomState(case['seed'])
    a = numpy.zeros((n, n))
    for i in range(n):
        for j in (i - 1 if i % w else -1, i - w):
            if j >= 0:
                a[i, j] = a[j, i] = r.uniform(-1, 1)
    a[numpy.arange(n), numpy.arange(n)] = numpy.abs(a).sum(axis=1) + r.uniform(0.1, 1, n)
    inverse = numpy.linalg.inv(a)
    b = r.normal(size=(n, case['columns']))
    expected = inverse @ b
    f = PardisoWrapper.cholesky(scipy.sparse.csr_matrix(a))
    require_close(numpy.asarray(f.solve_A(b)), expected, 'solution', 1e-7, 1e-8)
    require_close(numpy.asarray(f.diag_inv_A()).ravel(), numpy.diag(inverse), 'diagonal of the inverse', 1e-7, 1e-9)
    y = numpy.asarray(f.solve_backward_substitution(b))
    require_close(numpy.sum(y * a.dot(y), axis=0), numpy.sum(b * b, axis=0), 'x\'Ax after backward substitution', 1e-7, 1e-9)
    norm_check(f.solve_forward_substitution(b), a, b, 'forward substitution')
    f.free_memory()
    c = ExtendedCholmodWrapper.cholesky(scipy.sparse.csc_matrix(a))
    require_close(numpy.asarray(c.solve_A(b)), expected, 'solution', 1e-7, 1e-8)
    require_close(c.logdet(), numpy.linalg.slogdet(a)[1], 'log determinant', 1e-8, 1e-8)
    if n <= 130:
        q = scipy.sparse.csc_matrix(a)
        got = qinv.Q_inv(q).toarray()
        require_close(got[a != 0], inverse[a != 0], 'elements of the inverse', 1e-7, 1e-9)
    return n > 1000


class Prior(object):
    def __init__(self, a):
        self.a = a

    def prior_number_of_state_parameters(self):
        return self.a.shape[0]

    def prior_precision(self):
        return scipy.sparse.csr_matrix(self.a)


@st.composite
def systems(draw):
    a = draw(matrices(8))
    n = len(a)
    updates = []
    for _ in range(draw(st.integers(0, 4))):
        m = draw(st.integers(1, 6))
        h = [[draw(st.sampled_from([0.0, 0.0, 1.0, -0.5, 2.0])) for _ in range(n)] for _ in range(m)]
        updates.append({'h': h, 'r': [draw(st.floats(0.1, 10)) for _ in range(m)], 'y': [draw(value) for _ in range(m)], 'full': draw(st.booleans())})
    return {'a': a, 'updates': updates, 'order': draw(st.permutations(range(len(updates)))), 'column': draw(st.booleans())}


@facet(systems(), quick=400, thorough=8000)
def linear_system(case):
    """posterior of prior and measurement updates: non-trivial with two updates or more"""
    a, n = case['a'], len(case['a'])
    precision, information = a.copy(), numpy.zeros((n, 1))
    parts = []
    for u in case['updates']:
        h, y = numpy.array(u['h']), numpy.array(u['y'])
        r = numpy.diag(u['r'])
        if u['full'] and len(y) > 1:
            r[0, 1] = r[1, 0] = 0.3 * min(u['r'][0], u['r'][1])
        precision += h.T @ r @ h
        information += h.T @ r @ y[:, None]
        m = MeasurementUpdate.create_from_system_observations(scipy.sparse.csc_matrix(h), scipy.sparse.csc_matrix(r), y[:, None] if case['column'] else y)
        require_close(scipy.sparse.csc_matrix(m.information_precision).toarray(), h.T @ r @ h, 'information precision')
        require_close(numpy.asarray(m.information_vector), h.T @ r @ y[:, None], 'information vector')
        parts.append(m)
    scale = numpy.linalg.inv(precision)
    tol = (1e-7, 1e-9 * max(1.0, numpy.abs(scale).max(), numpy.abs(scale @ information).max()))
    for order in (range(len(parts)), case['order']):
        s = LinearSystem(Prior(a))
        for k in order:
            s.append_measurement_update(parts[k])
        solution = LinearSystemSolution_Cholesky(s)
        require(solution.number_of_state_parameters == n, '%s parameters', solution.number_of_state_parameters)
        require_close(numpy.asarray(solution.maximum_a_posteriori()).reshape(n), (scale @ information)[:, 0], 'posterior mean', *tol)
        require_close(numpy.asarray(solution.marginal_std()).ravel(), numpy.sqrt(numpy.diag(scale)), 'marginal standard deviation', *tol)
        b = numpy.asarray(solution.white_noise_to_posterior_distribution(numpy.eye(n)))
        require_close(b @ b.T, scale, 'covariance of transformed white noise', *tol)
        require(solution.random_sample(3).shape == (n, 3), 'shape of samples')
    # the parts are as they were
    for u, m in zip(case['updates'], parts):
        h, y = numpy.array(u['h']), numpy.array(u['y'])
        r = numpy.diag(u['r'])
        if u['full'] and len(y) > 1:
            r[0, 1] = r[1, 0] = 0.3 * min(u['r'][0], u['r'][1])
        require_close(scipy.sparse.csc_matrix(m.information_precision).toarray(), h.T @ r @ h, 'information precision after use')
    return len(parts) > 1
