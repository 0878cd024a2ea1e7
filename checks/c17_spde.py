"""Cases: lattices of one to three dimensions of different sizes, spacings and wrapping, with three kinds of basis function
and spans of one to several nodes; spherical meshes of levels 0 to 3, smoothness orders 2 to 6, constant and varying
parameters; regional views (neighbourhoods and super-triangles at every level below). Oracle: an independent dense
construction (basis function of the cyclic distance to every node, finite elements triangle by triangle, the operator
applied again for higher orders); derivatives by complex step through it; the variance implied by the stated standard
deviation. A case is non-trivial when the lattice wraps or has several dimensions, the order is not 2 or the view is a
part of the sphere."""

import numpy
from hypothesis import strategies as st
from harness import facet, require, require_close
import refspde as ref

from eustace.analysis.advanced_standard.stats.spde.lattice import BasisFunction, LatticeMesh, LatticeSPDE, PiecewiseLinearBasis, WendlandC4Basis
from eustace.analysis.advanced_standard.stats.spde.spherical import SphereMeshSPDE
from eustace.analysis.advanced_standard.stats.spde.spherical_view import SphereMeshViewGlobal, SphereMeshViewLocal, SphereMeshViewSuperTriangle

BASIS = {'wendland': WendlandC4Basis, 'cone': BasisFunction, 'linear': PiecewiseLinearBasis}
SPHERES = {}


def whole(level):
    if level not in SPHERES:
        SPHERES[level] = SphereMeshSPDE(level)
    return SPHERES[level]


@st.composite
def lattices(draw, most=3, nodes=9):
    n = draw(st.integers(1, most))
    wrap = draw(st.one_of(st.none(), st.lists(st.booleans(), min_size=n, max_size=n)))
    dims = []
    for k in range(n):
        lo = draw(st.sampled_from([0.0, -5.0, 1850.0, -90.0, 0.25]))
        count = draw(st.integers(3, nodes if n < 3 else 5))
        if n == 1 and draw(st.integers(0, 7)) == 7:
            count = draw(st.integers(10, 130))
        step = draw(st.sampled_from([1.0, 0.5, 10.0, 0.1, 3.75]))
        dims.append([lo, lo + step * (count if wrap and wrap[k] else count - 1), count])
    return {'dims': dims, 'wrap': wrap}


def construct(case, basis, overlap):
    return LatticeSPDE.construct(dimension_specification=[tuple(d) for d in case['dims']], basis_function=basis, overlap_factor=overlap, wrap_dimensions=case['wrap'])


def interesting(case):
    return len(case['dims']) > 1 or bool(case['wrap'] and any(case['wrap']))


places = st.lists(st.lists(st.one_of(st.floats(0, 1), st.sampled_from([0.0, 1.0, 0.5])), min_size=3, max_size=3), min_size=1, max_size=8)


@facet(st.fixed_dictionaries({'lattice': lattices(), 'kind': st.sampled_from(['wendland', 'wendland', 'cone', 'linear']), 'overlap': st.one_of(st.sampled_from([1.0, 1.0, 1.5, 2.5, 3.0]), st.integers(10, 45).map(lambda x: x / 10.0)), 'places': places, 'at': st.lists(st.integers(0, 1000), max_size=6), 'state': st.integers(0, 10 ** 6)}), quick=500, thorough=9000, shards=3)
def lattice_interpolation(case):
    """interpolation on lattices"""
    lattice = case['lattice']
    wrap = lattice['wrap']
    _, spacing = ref.lattice_axes(lattice['dims'], wrap)
    spde = construct(lattice, BASIS[case['kind']](), case['overlap'])
    nodes = ref.lattice_nodes(lattice['dims'], wrap)
    require(spde.n_latent_variables() == len(nodes), 'number of nodes %d for %d', spde.n_latent_variables(), len(nodes))
    require_close(spde.lattice.nodes, nodes, 'nodes', 1e-12, 1e-9)
    span = numpy.array(spacing) * case['overlap']
    where = [[d[0] + p[k] * (d[1] - d[0]) for k, d in enumerate(lattice['dims'])] for p in case['places']]
    where = numpy.array(where + [nodes[i % len(nodes)].tolist() for i in case['at']])
    A = spde.build_A(where)
    require(A.shape == (len(where), len(nodes)), 'shape %s', A.shape)
    expected = ref.lattice_A(lattice['dims'], wrap, span, where, case['kind'])
    require_close(A.toarray(), expected, 'interpolation matrix', 0, 1e-9)
    if case['kind'] == 'linear' and case['overlap'] == 1.0:
        require_close(A.toarray().sum(axis=1), numpy.ones(len(where)), 'sum of weights', 0, 1e-9)
        values = numpy.random.RandomState(case['state']).normal(size=len(nodes))
        require_close(spde.build_A(nodes).dot(values), values, 'values at the nodes', 0, 1e-8)
    if len(lattice['dims']) == 1:
        require_close(spde.build_A(where[:, 0]).toarray(), A.toarray(), 'locations as a vector', 0, 0)
    if wrap and any(wrap):  # a period further on
        k = wrap.index(True)
        moved = where.copy()
        moved[:, k] += lattice['dims'][k][1] - lattice['dims'][k][0]
        require_close(spde.build_A(moved).toarray(), A.toarray(), 'one period further', 0, 1e-8)
    return interesting(lattice)


numbers = st.floats(-2, 2)


@facet(st.fixed_dictionaries({'lattice': lattices(), 'alpha': st.sampled_from([1, 2, 2]), 'sigma': numbers, 'rho': st.floats(-1, 1), 'H': st.one_of(st.none(), st.sampled_from([1.0, 0.5, 4.0]), st.lists(st.sampled_from([1.0, 0.5, 3.0]), min_size=3, max_size=3))}), quick=500, thorough=6000, shards=3)
def lattice_precision(case):
    """precision on lattices: and its derivatives"""
    lattice = case['lattice']
    dims, wrap, d = lattice['dims'], lattice['wrap'], len(lattice['dims'])
    alpha = 2 if d > 1 else case['alpha']
    _, spacing = ref.lattice_axes(dims, wrap)
    rho = case['rho'] + numpy.log(max(spacing))
    H = numpy.array(case['H'][:d]) if isinstance(case['H'], list) else case['H']
    spde = construct(lattice, WendlandC4Basis(), 2.5)
    Q = spde.build_Q_stationary(case['sigma'], rho, alpha, H, 'csr').toarray()
    expected = ref.lattice_Q(dims, wrap, case['sigma'], rho, alpha, H)
    scale = numpy.abs(expected).max()
    require(Q.shape == expected.shape, 'shape %s', Q.shape)
    require_close(Q / scale, expected / scale, 'precision', 0, 1e-11)
    require_close(Q / scale, Q.T / scale, 'symmetry', 0, 1e-13)
    require(numpy.linalg.eigvalsh(Q / scale).min() > 0, 'not positive definite')
    for k in range(2):
        step = [1e-30j if k == j else 0 for j in range(2)]
        rate = numpy.imag(ref.lattice_Q(dims, wrap, case['sigma'] + step[0], rho + step[1], alpha, H)) / 1e-30
        dQ = spde.build_dQdp_stationary(case['sigma'], rho, alpha, H, k, 'csr').toarray()
        require_close(dQ / scale, rate / scale, 'derivative %d' % k, 0, 1e-10)
    return interesting(lattice) or alpha == 1


@st.composite
def spheres(draw, most=2):
    level = draw(st.integers(0, most))
    kind = draw(st.sampled_from(['whole', 'near', 'super', 'global']))
    below = draw(st.integers(0, level))
    return {'level': level, 'kind': kind, 'below': below, 'index': draw(st.integers(0, 20 * 4 ** below - 1))}


def view(case):
    """view and the triangles in it (numbers), from the numbering of the parent triangles"""
    level, below, index = case['level'], case['below'], case['index']
    points, triangles = ref.sphere(level)
    every = set(range(len(triangles)))
    if case['kind'] == 'whole':
        return whole(level), every
    if case['kind'] == 'global':
        return SphereMeshViewGlobal(level), every
    parent = lambda t: t >> (2 * (level - below))
    if case['kind'] == 'super':
        return SphereMeshViewSuperTriangle(level, below, index), {t for t in every if parent(t) == index}
    coarse = ref.sphere(below)[1]
    near = {p for p in range(len(coarse)) if set(coarse[p]) & set(coarse[index])}
    return SphereMeshViewLocal(level, below, index), {t for t in every if parent(t) in near}


def parts(case):
    spde, kept = view(case)
    points, triangles = ref.sphere(case['level'])
    vertices = sorted({int(v) for t in kept for v in triangles[t]})
    position = {v: i for i, v in enumerate(vertices)}
    local = numpy.array([[position[int(v)] for v in triangles[t]] for t in sorted(kept)])
    return spde, kept, vertices, points[vertices], local


ELEMENTS = {}


def finite_elements(case):
    key = (case['level'], case['kind'], case['below'], case['index'])
    if key not in ELEMENTS:
        spde, kept, vertices, points, local = parts(case)
        ELEMENTS[key] = (spde, vertices) + ref.finite_elements(points, local)
    return ELEMENTS[key]


@facet(st.fixed_dictionaries({'sphere': spheres(), 'alpha': st.sampled_from([2, 2, 3, 4, 5, 6]), 'sigma': numbers, 'rho': st.floats(-1.5, 1.5), 'varying': st.sampled_from([None, None, 1, 2, 3])}), quick=300, thorough=4000, shards=4)
def sphere_precision(case):
    """precision on spheres and views: and its derivatives"""
    spde, vertices, C, G = finite_elements(case['sphere'])
    n = len(vertices)
    require(spde.n_latent_variables() == n, 'number of nodes %d for %d', spde.n_latent_variables(), n)
    require_close(spde.build_Q_C_tilde().toarray(), numpy.diag(C), 'mass matrix', 0, 1e-12)
    require_close(spde.build_Q_G().toarray(), G, 'stiffness matrix', 0, 1e-11)
    alpha = case['alpha']
    if case['varying'] is None:
        sigma, rho = case['sigma'], case['rho']
        Q = spde.build_Q_stationary(sigma, rho, alpha)
        chosen = [0, 1]
        derivative = lambda k: spde.build_dQdp_stationary(sigma, rho, alpha, k)
        step = lambda k: (1e-30j * (k == 0), 1e-30j * (k == 1))
    else:
        r = numpy.random.RandomState(case['varying'])
        sigma, rho = case['sigma'] + r.uniform(-0.5, 0.5, n), case['rho'] + r.uniform(-0.5, 0.5, n)
        Q = spde.build_Q_expanded(sigma, rho, alpha)
        chosen = sorted(set(r.randint(0, 2 * n, 3).tolist()))
        derivative = lambda k: spde.build_dQdp_expanded(sigma, rho, alpha, k)
        step = lambda k: (1e-30j * (numpy.arange(n) == k), 1e-30j * (numpy.arange(n) == k - n))
    Q = Q.toarray()
    expected = ref.sphere_Q(C, G, sigma, rho, alpha)
    d = 1 / numpy.sqrt(numpy.diag(expected))
    unit = lambda M: d[:, None] * M * d[None, :]
    require_close(unit(Q), unit(expected), 'precision of order %d' % alpha, 0, 1e-9)
    require_close(unit(Q), unit(Q).T, 'symmetry', 0, 1e-9)
    smallest = numpy.linalg.eigvalsh(unit(expected)).min()
    if smallest > 1e-8:
        require(numpy.linalg.eigvalsh((unit(Q) + unit(Q).T) / 2).min() > 0, 'not positive definite')
    for k in chosen:
        s, t = step(k)
        rate = numpy.imag(ref.sphere_Q(C, G, sigma + s, rho + t, alpha)) / 1e-30
        require_close(unit(derivative(k).toarray()), unit(rate), 'derivative %d of order %d' % (k, alpha), 0, 1e-8)
    return alpha != 2 or case['sphere']['kind'] in ('near', 'super') or case['varying'] is not None


@facet(st.fixed_dictionaries({'sphere': spheres(3), 'places': st.lists(st.one_of(st.tuples(st.floats(-90, 90), st.floats(-180, 180)), st.tuples(st.just('centre'), st.integers(0, 10 ** 6)), st.tuples(st.just('point'), st.integers(0, 10 ** 6))), min_size=0, max_size=12)}), quick=200, thorough=3000, shards=3)
def sphere_interpolation(case):
    """interpolation on views: non-trivial when the view is a part of the sphere"""
    spde, kept, vertices, _, _ = parts(case['sphere'])
    level = case['sphere']['level']
    points, triangles = ref.sphere(level)
    polar = []
    for a, b in case['places']:
        if a in ('centre', 'point'):
            inside = sorted(kept)
            t = inside[b % len(inside)]
            v = points[triangles[t]].sum(axis=0) if a == 'centre' else points[triangles[t][b % 3]]
            v = v / numpy.linalg.norm(v)
            polar.append([numpy.degrees(numpy.arcsin(v[2])), numpy.degrees(numpy.arctan2(v[1], v[0]))])
        else:
            polar.append([a, b])
    polar = numpy.array(polar, float).reshape(-1, 2)
    A = spde.build_A(polar)
    require(A.shape == (len(polar), len(vertices)), 'shape %s', A.shape)
    expected, certain = ref.sphere_A(level, polar, kept)
    require_close(A.toarray()[certain], expected[:, vertices][certain], 'weights', 0, 1e-9)
    if hasattr(spde, 'in_domain'):
        inside = numpy.asarray(spde.in_domain(polar))
        require(numpy.array_equal(inside[certain], (expected.sum(axis=1) > 0)[certain]), 'inside the view: %s', inside.tolist())
    return case['sphere']['kind'] in ('near', 'super')


@facet(st.fixed_dictionaries({'level': st.integers(0, 2), 'below': st.integers(0, 1), 'kind': st.sampled_from(['near', 'super']), 'method': st.sampled_from(['direct_average', 'exp_average', 'accumulate']), 'seed': st.integers(0, 10 ** 6)}), quick=60, thorough=800, shards=3)
def merging(case):
    """parameters of all regions merged to the whole sphere are averages over the regions at each point"""
    below = min(case['below'], case['level'])
    views, members = [], []
    for index in range(20 * 4 ** below):
        spde, kept, vertices, _, _ = parts({'level': case['level'], 'kind': case['kind'], 'below': below, 'index': index})
        views.append(spde)
        members.append(vertices)
    r = numpy.random.RandomState(case['seed'])
    parameters = [r.uniform(-1, 1, 2) for _ in views]
    points, triangles = ref.sphere(case['level'])
    average = numpy.zeros((len(points), 2))
    for v in range(len(points)):
        mine = numpy.array([p for p, m in zip(parameters, members) if v in set(m)])
        average[v] = mine.mean(axis=0) if case['method'] == 'direct_average' else numpy.log(numpy.exp(mine).mean(axis=0))
    world = SphereMeshViewGlobal(case['level'])
    if case['method'] == 'accumulate':
        s = t = c = None
        for spde, p in zip(views, parameters):
            s, t, c = SphereMeshViewGlobal.accumulate_local_parameterisations(s, t, c, spde, p)
        sigma, rho = SphereMeshViewGlobal.finalise_local_parameterisation_sigma_rho(s, t, c)
        q, A, B = SphereMeshViewGlobal.finalise_local_parameterisation_q(s, t, c)
        require_close(sigma, average[:, 0], 'log sigma', 0, 1e-10)
        require_close(rho, average[:, 1], 'log rho', 0, 1e-10)
    else:
        q, A, B = world.merge_local_parameterisations(views, parameters, case['method'])
    require_close(A.dot(q), average[:, 0], 'log sigma by design', 0, 1e-10)
    require_close(B.dot(q), average[:, 1], 'log rho by design', 0, 1e-10)
    Q = world.build_Q(q, 2, A.tocsr(), B.tocsr()).toarray()
    C, G = finite_elements({'level': case['level'], 'kind': 'whole', 'below': 0, 'index': 0})[2:]
    expected = ref.sphere_Q(C, G, average[:, 0], average[:, 1], 2)
    require_close(Q / numpy.abs(expected).max(), expected / numpy.abs(expected).max(), 'precision of the merged parameters', 0, 1e-9)
    return True


@facet(st.fixed_dictionaries({'sigma': st.floats(-3, 3), 'rho': st.floats(0.5, 0.9), 'alpha': st.sampled_from([2, 3]), 'on': st.sampled_from(['sphere', 'line'])}), quick=16, thorough=100, shards=2)
def variance(case):
    """standard deviation of the field at the nodes is the stated one, and the correlation at the stated range is low"""
    if case['on'] == 'line':
        alpha = case['alpha'] - 1
        spde = construct({'dims': [[0.0, 100.0, 400]], 'wrap': [True]}, WendlandC4Basis(), 2.5)
        rho = 10.0 * case['rho']
        covariance = numpy.linalg.inv(spde.build_Q_stationary(case['sigma'], numpy.log(rho), alpha, None, 'csr').toarray())
        tolerance, far = 0.05, int(round(rho / 0.25))
        pairs = [(0, far), (100, 100 + far)]
    else:
        spde = whole(4)
        rho = case['rho']
        covariance = numpy.linalg.inv(spde.build_Q_stationary(case['sigma'], numpy.log(rho), case['alpha']).toarray())
        points = ref.sphere(4)[0]
        tolerance = 0.12
        pairs = []
        for k in range(0, len(points), 100):
            angle = numpy.arccos(numpy.clip(points.dot(points[k]), -1, 1))
            pairs.append((k, int(numpy.argmin(numpy.abs(angle - rho)))))
    deviation = numpy.sqrt(numpy.diag(covariance)) / numpy.exp(case['sigma'])
    require_close(deviation, numpy.ones(len(deviation)), 'standard deviation over the stated one', 0, tolerance)
    for a, b in pairs:
        correlation = covariance[a, b] / numpy.sqrt(covariance[a, a] * covariance[b, b])
        require(0.05 < correlation < 0.25, 'correlation %.3f at the stated range', correlation)
    return True
