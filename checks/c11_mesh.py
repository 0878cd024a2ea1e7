"""Cases: icosahedron meshes subdivided 0 to 5 times (thorough: 0 to 7), with or without projection onto the sphere, with face
centres at the poles or turned about the y-axis by any angle before subdivision, subdivided in one or in several calls.
Oracle: Euler counts of the subdivided icosahedron; every undirected edge in exactly two triangles, once in each
direction; orientation and total area from independent formulas; children recomputed from their parents' corners. Files
(and cube lists) are read back by Python and by the C++ reader. Every case with level above 0 is non-trivial."""

import math
import os

import iris
import netCDF4
import numpy
from hypothesis import strategies as st
from harness import TIER, facet, require, require_close, scratch
from support import driver

from eustace.analysis.mesh import geometry
from eustace.analysis.mesh.irisconnector import IrisCubeListToMesh, MeshToIrisCubeList
from eustace.analysis.mesh.mesh import MeshIcosahedron, MeshIcosahedronSubdivision

SHIFT = 58


def cases(most):
    return st.fixed_dictionaries({'level': st.integers(0, most), 'project': st.sampled_from([True, True, True, False]),
                                  'turn': st.one_of(st.sampled_from(['no', 'poles']), st.floats(-7, 7)), 'steps': st.booleans()})


def build(case):
    if case['steps'] or case['turn'] not in ('no', 'poles'):
        mesh = MeshIcosahedron.build()
        if case['turn'] == 'poles':
            mesh.rotate_y(MeshIcosahedron.inter_vertex_angle())
        elif case['turn'] != 'no':
            mesh.rotate_y(case['turn'])
        for _ in range(case['level']):
            mesh = MeshIcosahedronSubdivision.subdivide(mesh, case['project'])
        return mesh
    return MeshIcosahedronSubdivision.build(case['level'], project_onto_sphere=case['project'], face_centre_at_poles=case['turn'] == 'poles')


def corners(mesh):
    v = mesh.triangles[:, 1:].astype(int)
    return mesh.points[v[:, 0]], mesh.points[v[:, 1]], mesh.points[v[:, 2]]


def solid_angle(a, b, c):
    """Van Oosterom and Strackee, signed: positive for anticlockwise seen from outside."""
    na, nb, nc = (numpy.linalg.norm(x, axis=1) for x in (a, b, c))
    dot = lambda x, y: numpy.sum(x * y, axis=1)
    return 2 * numpy.arctan2(dot(a, numpy.cross(b, c)), na * nb * nc + dot(a, b) * nc + dot(b, c) * na + dot(c, a) * nb)


@facet(cases(7), quick=60, thorough=400, shards=2)
def topology(case):
    """counts, numbers, edges and orientation of the triangulation"""
    level = case['level']
    mesh = build(case)
    nt = 20 * 4 ** level
    require(int(mesh.level) == level, 'level %s', mesh.level)
    require(mesh.points.shape == (10 * 4 ** level + 2, 3), '%s points', mesh.points.shape)
    require(mesh.triangles.shape == (nt, 4) and mesh.edges.shape == (30 * 4 ** level, 6), 'shapes %s %s', mesh.triangles.shape, mesh.edges.shape)
    tri = mesh.triangles.astype(object) if level == 0 else mesh.triangles
    ids = [int(x) for x in mesh.triangles[:, 0]]
    require(ids == [k << (SHIFT - 2 * level) for k in range(nt)], 'triangle numbers are not those of their rows')
    v = mesh.triangles[:, 1:].astype(numpy.int64)
    n = mesh.points.shape[0]
    require(v.min() >= 0 and v.max() == n - 1, 'vertex numbers outside the mesh')
    require(len(numpy.unique(v)) == n, 'a point belongs to no triangle')
    # each directed edge in exactly one triangle, its reverse in exactly one other
    directed = numpy.concatenate([v[:, 0] * n + v[:, 1], v[:, 1] * n + v[:, 2], v[:, 2] * n + v[:, 0]])
    reverse = numpy.concatenate([v[:, 1] * n + v[:, 0], v[:, 2] * n + v[:, 1], v[:, 0] * n + v[:, 2]])
    require(len(numpy.unique(directed)) == 3 * nt, 'a side belongs to two triangles in the same direction')
    require(numpy.array_equal(numpy.sort(directed), numpy.sort(reverse)), 'a side is not shared by two triangles of opposite direction')
    if case['turn'] == 'poles':
        # the middle triangle of the middle triangle ... of the one at the pole has its centre there
        centre = sum(corners(mesh))
        centre = centre / numpy.linalg.norm(centre, axis=1)[:, None]
        for pole in (1.0, -1.0):
            nearest = numpy.linalg.norm(centre - [0.0, 0.0, pole], axis=1).min()
            require(nearest < 1e-9, 'nearest centre of a triangle is %s from the pole', nearest)
    # points: distinct unit vectors; distance to the nearest other corner of each triangle well above zero
    a, b, c = corners(mesh)
    sides = numpy.array([numpy.linalg.norm(a - b, axis=1), numpy.linalg.norm(b - c, axis=1), numpy.linalg.norm(c - a, axis=1)])
    expected = 1.0514622 / 2 ** level
    require(sides.min() > 0.9 * expected and sides.max() < (1.5 if case['project'] else 1.01) * expected, 'sides between %s and %s, expected near %s', sides.min(), sides.max(), expected)
    if case['project']:
        require_close(numpy.linalg.norm(mesh.points, axis=1), numpy.ones(n), 'lengths of points', 1e-12, 1e-12)
    angles = solid_angle(a, b, c)
    require(numpy.all(angles < 0), 'a triangle is not clockwise seen from outside')
    require_close(numpy.sum(angles), -4 * math.pi, 'solid angle covered', 1e-9, 1e-9)
    # edges: their points and triangles
    edges = [[int(x) for x in row] for row in mesh.edges] if level < 3 else mesh.edges.astype(numpy.uint64)
    e = numpy.array(edges, numpy.uint64)
    p0, p1 = e[:, 0].astype(numpy.int64), e[:, 1].astype(numpy.int64)
    require(len(numpy.unique(numpy.minimum(p0, p1) * n + numpy.maximum(p0, p1))) == 30 * 4 ** level, 'an edge is listed twice')
    for first, second, t, number in ((p0, p1, e[:, 2], e[:, 3]), (p1, p0, e[:, 4], e[:, 5])):
        row = (t >> numpy.uint64(SHIFT - 2 * level)).astype(numpy.int64)
        require(numpy.all(row < nt) and numpy.all((row.astype(numpy.uint64) << numpy.uint64(SHIFT - 2 * level)) == t), 'an edge refers to no triangle')
        k = number.astype(numpy.int64)
        require(k.max() <= 2, 'edge number %s', k.max())
        require(numpy.array_equal(v[row, k], first) and numpy.array_equal(v[row, (k + 1) % 3], second), 'an edge is not where its triangle has it')
    return level > 0


@facet(cases(4), quick=60, thorough=400, shards=2)
def nesting(case):
    """the children of a triangle are its four quarters, in the order the point locator assumes"""
    parent = build(case)
    before = (parent.points.copy(), parent.triangles.copy(), parent.edges.copy())
    child = MeshIcosahedronSubdivision.subdivide(parent, case['project'])
    for old, new in zip(before, (parent.points, parent.triangles, parent.edges)):
        require(numpy.array_equal(old, new), 'subdivision changes its parent')
    require(numpy.array_equal(child.points[:len(parent.points)], parent.points), 'the points of the parent are not kept')
    a, b, c = corners(parent)

    def mid(x, y):
        m = (x + y) / 2
        return m / numpy.linalg.norm(m, axis=1)[:, None] if case['project'] else m
    ab, bc, ca = mid(a, b), mid(b, c), mid(c, a)
    quarters = [(a, ab, ca), (ab, b, bc), (ca, bc, c), (bc, ca, ab)]
    got = corners(child)
    for k in range(4):
        for corner in range(3):
            require_close(got[corner][k::4], quarters[k][corner], 'corner %d of child %d' % (corner, k), 1e-12, 1e-12)
    require(numpy.array_equal(child.triangles[:, 0] >> numpy.uint64(SHIFT - 2 * case['level']), numpy.repeat(numpy.arange(len(a)), 4).astype(numpy.uint64)), 'triangle numbers of children')
    # the corners by number, not only by position
    require(numpy.array_equal(child.triangles[0::4, 1], parent.triangles[:, 1]) and numpy.array_equal(child.triangles[1::4, 2], parent.triangles[:, 2]) and
            numpy.array_equal(child.triangles[2::4, 3], parent.triangles[:, 3]), 'corners of the parent in its children')
    return True


class Variable(object):
    def __init__(self, name, data):
        self.var_name, self.data = name, data


def variables(filename):
    """Like iris.load, which here takes the connectivity out of the list."""
    with netCDF4.Dataset(filename) as dataset:
        return [Variable(name, numpy.asarray(v[...])) for name, v in dataset.variables.items()]


@facet(st.one_of(cases(3), cases(3), cases(3), cases(7)), quick=32, thorough=150, shards=2)
def files(case):
    """the mesh read back (cubes, file, C++) is the mesh written"""
    mesh = build(case)
    unit = mesh.points / numpy.linalg.norm(mesh.points, axis=1)[:, None]
    with scratch():
        cubes = MeshToIrisCubeList(mesh)
        iris.save(cubes, 'mesh.nc')
        for back in (IrisCubeListToMesh(cubes), IrisCubeListToMesh(variables('mesh.nc'))):
            require_close(numpy.asarray(back.points, float), unit, 'points', 0, 1e-7)
            require(numpy.array_equal(numpy.asarray(back.triangles, numpy.uint64), mesh.triangles), 'triangles differ')
            require(numpy.array_equal(numpy.asarray(back.edges, numpy.uint64), mesh.edges), 'edges differ')
        lines = driver('mesh ' + os.path.abspath('mesh.nc'))
        points = numpy.array([[float.fromhex(x) for x in l.split()[1:]] for l in lines if l.startswith('p ')])
        triangles = numpy.array([[int(x) for x in l.split()[1:]] for l in lines if l.startswith('t ')])
        require(points.shape == unit.shape and triangles.shape == (len(mesh.triangles), 3), 'C++ reads %s points, %s triangles', points.shape, triangles.shape)
        require_close(points, unit, 'points read by C++', 0, 1e-7)
        require(numpy.array_equal(triangles, mesh.triangles[:, 1:].astype(int)), 'triangles read by C++ differ')
    return case['level'] > 0


vectors = st.tuples(st.floats(-1, 1), st.floats(-1, 1), st.floats(-1, 1))


@facet(st.tuples(cases(3), st.lists(st.tuples(vectors, vectors, vectors), min_size=1, max_size=20)), quick=200, thorough=3000)
def areas(case):
    """areas and circumcentres of triangles, of the mesh and arbitrary"""
    mesh_case, free = case
    mesh = build(mesh_case)
    a, b, c = corners(mesh)
    unit = [x / numpy.linalg.norm(x, axis=1)[:, None] for x in (a, b, c)]
    cross = geometry.normalised_cross_product
    area = geometry.triangle_area_spherical(cross(unit[0], unit[1]), cross(unit[1], unit[2]), cross(unit[2], unit[0]))
    require_close(area, -solid_angle(*unit), 'spherical areas', 1e-7, 1e-7)
    require_close(numpy.sum(area), 4 * math.pi, 'total area', 1e-6, 1e-6)
    p, q, r = (numpy.array([t[k] for t in free]) for k in range(3))
    pq, qr, rp = (numpy.linalg.norm(x - y, axis=1) for x, y in ((p, q), (q, r), (r, p)))
    s = (pq + qr + rp) / 2
    heron = numpy.sqrt(numpy.maximum(0, s * (s - pq) * (s - qr) * (s - rp)))
    require_close(geometry.triangle_area_euclidean(p, q, r), heron, 'plane areas', 1e-6, 1e-6)
    ok = (heron > 1e-2) & (numpy.minimum(numpy.minimum(pq, qr), rp) > 1e-2)
    if numpy.any(ok):
        centre = geometry.triangle_circumcentre(numpy.hstack((p, q, r)))[ok]
        d = [numpy.linalg.norm(centre - x[ok], axis=1) for x in (p, q, r)]
        scale = 1 + numpy.max(d)
        require_close(d[1] / scale, d[0] / scale, 'distances of the circumcentre', 1e-8, 1e-8)
        require_close(d[2] / scale, d[0] / scale, 'distances of the circumcentre', 1e-8, 1e-8)
        plane = numpy.cross(q - p, r - p)[ok]
        require_close(numpy.sum(plane * (centre - p[ok]), axis=1) / scale, numpy.zeros(ok.sum()), 'circumcentre outside the plane', 1e-8, 1e-8)
    return True
