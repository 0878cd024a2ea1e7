"""Cases: up to 25 directions per case, given by latitude and longitude or taken at mesh vertices, side midpoints, points
along sides, the poles and the date line, slightly off any of these; meshes and locations at levels 0 to 12. Oracle: the
triangle named by its number, its corners recomputed by repeated halving, must contain the direction (signed volumes), and
the weights must reproduce the direction; for flat triangles, the place given by the weights. A case is non-trivial when it has a direction on a vertex or side."""

import numpy
from hypothesis import strategies as st
from harness import facet, require, require_close

from eustace.analysis.advanced_standard.stats.spde.spherical import SphereMeshSPDE
from eustace.analysis.mesh import geometry
from eustace.analysis.mesh.geometry import barycentric_coordinates_planar, barycentric_coordinates_spherical
from eustace.analysis.mesh.locator import TriangleLocator, TriangleLocatorHierarchical
from eustace.analysis.mesh.mesh import MeshIcosahedron, MeshIcosahedronSubdivision

SHIFT = 58
MESHES = {}


def mesh_at(level, poles=False):
    if (level, poles) not in MESHES:
        MESHES[level, poles] = MeshIcosahedronSubdivision.build(level, face_centre_at_poles=poles)
    return MESHES[level, poles]


positions = st.one_of(
    st.tuples(st.just('polar'), st.floats(-90, 90), st.floats(-180, 360)),
    st.tuples(st.just('polar'), st.sampled_from([-90.0, 90.0, 0.0, 45.0, 31.7174744, 58.2825256, 26.565051177077994]), st.sampled_from([-180.0, 180.0, 0.0, 90.0, 360.0, 36.0, 20.9051574])),
    st.tuples(st.just('vertex'), st.integers(0, 10 ** 6), st.just(0.0)),
    st.tuples(st.just('edge'), st.integers(0, 10 ** 6), st.one_of(st.sampled_from([0.5, 0.25, 0.125]), st.floats(0, 1))),
    st.tuples(st.just('near'), st.integers(0, 10 ** 6), st.sampled_from([1e-15, 1e-12, 1e-9, -1e-12, 1e-6])),
    st.tuples(st.just('centre'), st.integers(0, 10 ** 6), st.just(0.0)))


def direction(mesh, p):
    kind, k, x = p
    if kind == 'polar':
        return geometry.polar2d_to_cartesian(numpy.array([[k, x]]))[0]
    if kind == 'vertex':
        return mesh.points[k % len(mesh.points)]
    e = mesh.edges[k % len(mesh.edges)]
    if kind == 'edge':
        v = mesh.points[int(e[0])] * (1 - x) + mesh.points[int(e[1])] * x
    elif kind == 'near':
        v = mesh.points[int(e[0])] + x * mesh.points[int(e[1])]
    else:
        t = mesh.triangles[k % len(mesh.triangles)]
        v = mesh.points[int(t[1])] + mesh.points[int(t[2])] + mesh.points[int(t[3])]
    return v / numpy.linalg.norm(v)


def weights(a, b, c, v):
    """v = w0 a + w1 b + w2 c up to a positive factor, sum 1 (independent of the code: a linear solve)"""
    w = numpy.linalg.solve(numpy.array([a, b, c]).T, v)
    return w / w.sum(), w.sum()


def refined(base, number, level):
    """Corners of the triangle of this number, by repeated halving of the icosahedron's."""
    row = number >> SHIFT
    require(0 <= row < 20, 'triangle number %d', number)
    a, b, c = (base.points[int(base.triangles[row, k])] for k in (1, 2, 3))
    unit = lambda x: x / numpy.linalg.norm(x)
    for i in range(1, level + 1):
        k = (number >> (SHIFT - 2 * i)) & 3
        ab, bc, ca = unit(a + b), unit(b + c), unit(c + a)
        a, b, c = [(a, ab, ca), (ab, b, bc), (ca, bc, c), (bc, ca, ab)][k]
    require(number & ((1 << (SHIFT - 2 * level)) - 1) == 0, 'triangle number %d has more levels than %d', number, level)
    return a, b, c


def contained(corner, v, slack, what):
    w, total = weights(corner[0], corner[1], corner[2], v)
    require(total > 0 and w.min() > -slack, '%s: the triangle located does not contain the direction (weights %s)', what, w.tolist())
    return w


@facet(st.fixed_dictionaries({'level': st.integers(0, 2), 'poles': st.booleans(), 'points': st.lists(positions, min_size=1, max_size=8)}), quick=250, thorough=4000, shards=2)
def search_all(case):
    """search over all triangles of a mesh: non-trivial with a direction on a vertex or side"""
    mesh = mesh_at(case['level'], case['poles'])
    v = numpy.array([direction(mesh, p) for p in case['points']])
    locator = TriangleLocator(mesh)
    indices = locator.locate_vector_indices_exhaustive(v)
    require(indices.shape == (len(v),), 'shape %s', indices.shape)
    inside = numpy.ones((len(v), 3))
    for k, (p, x, i) in enumerate(zip(case['points'], v, indices.tolist())):
        require(0 <= i < len(mesh.triangles), 'no triangle found for %s (index %d)', p, i)
        inside[k] = contained([mesh.points[int(k)] for k in mesh.triangles[i, 1:]], x, 1e-9, p)
    for method in (barycentric_coordinates_planar, barycentric_coordinates_spherical):
        if method is barycentric_coordinates_spherical and inside.min() < 1e-3:
            continue  # areas on the sphere: not defined on sides and vertices
        w = locator.barycentric_coordinates_at_indices(indices, v, method)
        require_close(w.sum(axis=1), numpy.ones(len(v)), 'sum of weights (%s)' % method.__name__)
        require(w.min() >= 0.0, 'negative weight %s', w.min())
        if method is barycentric_coordinates_planar:
            for x, i, row in zip(v, indices.tolist(), w):
                y = sum(row[k] * mesh.points[int(mesh.triangles[i, k + 1])] for k in range(3))
                require_close(y / numpy.linalg.norm(y), x, 'direction of the weighted vertices', 0, 1e-7)
    return any(p[0] in ('vertex', 'edge') for p in case['points'])


@facet(st.fixed_dictionaries({'level': st.integers(0, 12), 'at': st.integers(0, 4), 'poles': st.booleans(), 'deeper': st.lists(st.integers(1, 29), max_size=2), 'points': st.lists(positions, min_size=1, max_size=25)}), quick=500, thorough=12000, shards=3)
def search_by_level(case):
    """hierarchical search: non-trivial with a direction on a vertex or side"""
    base = mesh_at(0, case['poles'])
    v = numpy.array([direction(mesh_at(case['at'], case['poles']), p) for p in case['points']])
    before = base.points.copy()
    numbers, w = TriangleLocatorHierarchical(base).locate_vector_hierarchical(v, levels=case['level'])
    require(numpy.array_equal(before, base.points), 'the search changes the mesh')
    require(numbers.shape == (len(v),) and w.shape == (len(v), 3), 'shapes %s %s', numbers.shape, w.shape)
    slack = 1e-9 * 4 ** case['level']
    require_close(w.sum(axis=1), numpy.ones(len(v)), 'sum of weights', 0, 1e-9)
    require(w.min() >= 0.0, 'negative weight %s', w.min())
    for p, x, number, row in zip(case['points'], v, numbers.tolist(), w):
        corner = refined(base, number, case['level'])
        expected = contained(corner, x, max(1e-9, slack), p)
        require_close(row, expected, 'weights of %s' % (p,), 0, 1e-6 + slack)
    if case['deeper']:
        # numbers of deeper levels begin with those of this one, and have one place of two bits for each level
        last, before = case['level'], numbers.tolist()
        for level in sorted({min(29, case['level'] + k - j) for k in case['deeper'] for j in (0, 1)}):
            deeper, w2 = TriangleLocatorHierarchical(base).locate_vector_hierarchical(v, levels=level)
            require_close(w2.sum(axis=1), numpy.ones(len(v)), 'sum of weights at level %d' % level, 0, 1e-6)
            for p, x, y in zip(case['points'], before, deeper.tolist()):
                require(y >> (SHIFT - 2 * last) == x >> (SHIFT - 2 * last), 'number of %s is %x at level %d and %x at level %d', p, x, last, y, level)
                require(y & ((1 << (SHIFT - 2 * level)) - 1) == 0, 'number of %s at level %d is %x', p, level, y)
            for p, x, y in list(zip(case['points'], v, deeper.tolist()))[:6]:
                corner = refined(base, y, level)
                away = numpy.linalg.norm(sum(corner) / 3 - x)
                require(away < 2.0 / 2 ** level + 1e-7, 'triangle of %s at level %d is %s from it', p, level, away)
            last, before = level, deeper.tolist()
    if case['level'] <= 4:
        mesh = mesh_at(case['level'], case['poles'])
        rows = (numbers >> numpy.uint64(SHIFT - 2 * case['level'])).astype(int)
        y = sum(w[:, [k]] * mesh.points[mesh.triangles[rows, k + 1].astype(int)] for k in range(3))
        require_close(y / numpy.linalg.norm(y, axis=1)[:, None], v, 'direction of the weighted vertices of the mesh', 0, 1e-7)
    return any(p[0] in ('vertex', 'edge') for p in case['points'])


SPDE = {}


@facet(st.fixed_dictionaries({'level': st.integers(0, 7), 'points': st.lists(positions, min_size=1, max_size=25), 'constant': st.floats(-1e3, 1e3)}), quick=250, thorough=4000, shards=2)
def interpolation(case):
    """the interpolation matrix of the mesh: non-trivial with a direction on a vertex or side"""
    level = case['level']
    if level not in SPDE:
        SPDE[level] = SphereMeshSPDE(level)
    mesh = mesh_at(level)
    spde = SPDE[level]
    v = numpy.array([direction(mesh, p) for p in case['points']])
    polar = numpy.array([[p[1], p[2]] if p[0] == 'polar' else geometry.cartesian_to_polar2d(x[None, :])[0] for p, x in zip(case['points'], v)])
    A = spde.build_A(polar)
    require(A.shape == (len(v), 10 * 4 ** level + 2) and spde.n_latent_variables() == A.shape[1], 'shape %s', A.shape)
    if level > 4:
        used = numpy.unique(A.indices)
        A, points = A[:, used].toarray(), mesh.points[used]
    else:
        A, points = A.toarray(), mesh.points
    require(A.min() >= 0 and numpy.all((A != 0).sum(axis=1) <= 3), 'weights negative or more than three')
    require_close(A.dot(numpy.full(A.shape[1], case['constant'])), numpy.full(len(v), case['constant']), 'a constant field', 1e-9, 1e-9)
    y = A.dot(points)
    require_close(y / numpy.linalg.norm(y, axis=1)[:, None], v, 'the direction', 0, 1e-6)
    for p, row in zip(case['points'], A):
        if p[0] == 'vertex' and level <= 4:
            expected = numpy.zeros(A.shape[1])
            expected[p[1] % len(mesh.points)] = 1
            require_close(row, expected, 'weights at vertex %d' % p[1], 0, 1e-6)
    # one by one or all at once
    for k in range(0, len(v), 7):
        row = spde.build_A(polar[k:k + 1]).toarray()[0]
        require_close(row[used] if level > 4 else row, A[k], 'weights of one point alone', 0, 1e-6)
    return any(p[0] in ('vertex', 'edge') for p in case['points'])


@facet(st.fixed_dictionaries({'level': st.integers(0, 9), 'poles': st.booleans(), 'seed': st.integers(0, 10 ** 6), 'number': st.sampled_from([300, 2000, 20000])}), quick=24, thorough=300, shards=2)
def many(case):
    """many directions at once: each is found where it is found alone"""
    base = mesh_at(0, case['poles'])
    v = numpy.random.RandomState(case['seed']).normal(size=(case['number'], 3))
    v /= numpy.linalg.norm(v, axis=1)[:, None]
    locator = TriangleLocatorHierarchical(base)
    numbers, w = locator.locate_vector_hierarchical(v, levels=case['level'])
    require(w.shape == v.shape and w.min() >= 0, 'weights: %s, least %s', w.shape, w.min())
    number = numbers.astype(numpy.int64)
    row = number >> SHIFT
    a, b, c = (base.points[base.triangles[row, k].astype(int)] for k in (1, 2, 3))
    unit = lambda x: x / numpy.linalg.norm(x, axis=1)[:, None]
    for i in range(1, case['level'] + 1):
        k = (number >> (SHIFT - 2 * i)) & 3
        ab, bc, ca = unit(a + b), unit(b + c), unit(c + a)
        a, b, c = (numpy.choose(k[:, None], options) for options in ((a, ab, ca, bc), (ab, b, bc, ca), (ca, bc, c, ab)))
    y = w[:, [0]] * a + w[:, [1]] * b + w[:, [2]] * c
    require_close(unit(y), v, 'direction of the weighted corners', 0, 1e-7)
    alone, own = locator.locate_vector_hierarchical(v[-1:], levels=case['level'])
    require(int(alone[0]) == int(numbers[-1]), 'the last direction is found elsewhere alone')
    return case['level'] > 0


@facet(st.lists(st.tuples(st.one_of(st.floats(-90, 90), st.sampled_from([-90.0, 90.0, 0.0, 1e-7, -1e-7, 1e-5, 89.999])), st.one_of(st.floats(-180, 180), st.sampled_from([-180.0, 180.0, 0.0, 90.0, 1e-7]))), min_size=1, max_size=20), quick=500, thorough=10000)
def conversion(case):
    """latitude and longitude to Cartesian and back"""
    polar = numpy.array(case)
    v = geometry.polar2d_to_cartesian(polar)
    la, lo = numpy.radians(polar[:, 0]), numpy.radians(polar[:, 1])
    require_close(v, numpy.array([numpy.cos(la) * numpy.cos(lo), numpy.cos(la) * numpy.sin(lo), numpy.sin(la)]).T, 'Cartesian coordinates', 0, 1e-14)
    for scale in (1.0, 3.5):
        back = geometry.cartesian_to_polar2d(v * scale)
        # the sine of a latitude says little about it next to the poles
        slack = numpy.minimum(3e-6, 1e-11 + 1e-13 / numpy.maximum(numpy.cos(la), 1e-9))
        require_close((back[:, 0] - polar[:, 0]) / slack, numpy.zeros(len(polar)), 'latitudes %s of %s, error' % (back[:, 0], polar[:, 0]), 0, 1)
        away = numpy.abs(polar[:, 0]) < 89.9
        d = numpy.mod(back[:, 1] - polar[:, 1] + 180, 360) - 180
        require_close(d[away], numpy.zeros(away.sum()), 'longitude', 0, 1e-9)
        require(numpy.all(numpy.abs(back[:, 1]) <= 180), 'longitude outside -180 to 180')
        require_close(geometry.polar2d_to_cartesian(back), v, 'back to Cartesian', 0, 1e-7)
    half = numpy.linalg.norm(v - v[0], axis=1) / 2
    require_close(geometry.vector_angle(v[1:], numpy.repeat(v[:1], len(v) - 1, axis=0)), numpy.degrees(2 * numpy.arcsin(numpy.minimum(1, half[1:]))), 'angle', 0, 1e-5) if not numpy.any(half[1:] < 1e-6) and not numpy.any(half[1:] > 1 - 1e-12) else None
    return True


@facet(st.fixed_dictionaries({'level': st.sampled_from([0, 1, 2, 3, 3, 3]), 'turn': st.one_of(st.sampled_from([0.0, 'poles', 'poles']), st.floats(-4, 4)), 'points': st.lists(st.integers(0, 10 ** 6), min_size=30, max_size=60)}), quick=160, thorough=3000, shards=4)
def vertices(case):
    """search over all triangles at vertices and side midpoints of meshes turned by any angle"""
    mesh = MeshIcosahedron.build()
    mesh.rotate_y(MeshIcosahedron.inter_vertex_angle() if case['turn'] == 'poles' else case['turn'])
    for _ in range(case['level']):
        mesh = MeshIcosahedronSubdivision.subdivide(mesh)
    v = numpy.array([direction(mesh, ('vertex' if k % 4 else 'edge', k // 4, 0.5)) for k in case['points']])
    indices = TriangleLocator(mesh).locate_vector_indices_exhaustive(v)
    for k, x, i in zip(case['points'], v, indices.tolist()):
        require(0 <= i < len(mesh.triangles), 'no triangle found for point %d at %s', k, x.tolist())
        contained([mesh.points[int(j)] for j in mesh.triangles[i, 1:]], x, 1e-9, k)
    return True


corner = st.tuples(st.floats(-2, 2), st.floats(-2, 2), st.floats(-2, 2))


@facet(st.lists(st.tuples(st.tuples(corner, corner, corner), st.tuples(st.floats(0, 1), st.floats(0, 1), st.floats(0, 1))), min_size=1, max_size=12), quick=400, thorough=8000)
def plane_triangles(case):
    """weights in a flat triangle and in the quarter of it that has the point, circumcentre and area: non-trivial when two quarters are used"""
    kept = []
    for points, w in case:
        p, w = numpy.array(points), numpy.array(w)
        if w.sum() > 0.1 and numpy.linalg.norm(numpy.cross(p[1] - p[0], p[2] - p[0])) > 0.05:
            kept.append((p, w / w.sum()))
    if not kept:
        return False
    p, w = numpy.array([k[0] for k in kept]), numpy.array([k[1] for k in kept])
    numbers = TriangleLocatorHierarchical.triangle_barycentre_subdivision_number(w)
    inner = TriangleLocatorHierarchical.triangle_barycentre_subdivide(w, numbers)
    require(inner.min() > -1e-12, 'weights %s in quarter %s: %s', w.tolist(), numbers.tolist(), inner.tolist())
    a, b, c = p[:, 0], p[:, 1], p[:, 2]
    ab, bc, ca = 0.5 * (a + b), 0.5 * (b + c), 0.5 * (c + a)
    k = numbers.astype(int)[:, None]
    small = [numpy.choose(k, options) for options in ((a, ab, ca, bc), (ab, b, bc, ca), (ca, bc, c, ab))]
    at = (w[:, :, None] * p).sum(axis=1)
    require_close(sum(inner[:, [i]] * small[i] for i in range(3)), at, 'place of the weights of the quarter', 0, 1e-12)
    centre = geometry.triangle_circumcentre(p.reshape(len(p), 9))
    distance = numpy.linalg.norm(p - centre[:, None, :], axis=2)
    normal = numpy.cross(b - a, c - a)
    size = 1 + distance.max(axis=1)
    require_close(distance[:, 1] / size, distance[:, 0] / size, 'distance of the circumcentre from corners', 0, 1e-7)
    require_close(distance[:, 2] / size, distance[:, 0] / size, 'distance of the circumcentre from corners', 0, 1e-7)
    require_close(((centre - a) * normal).sum(axis=1) / size, numpy.zeros(len(p)), 'circumcentre off the plane', 0, 1e-7)
    require_close(geometry.triangle_area_euclidean(a, b, c), 0.5 * numpy.linalg.norm(normal, axis=1), 'area', 1e-9, 1e-12)
    return len(set(numbers.tolist())) > 1
