"""Independent dense reference for the random-field models on spheres and lattices, and for their designs."""

import math

import numpy
from eustace.analysis.mesh.mesh import MeshIcosahedronSubdivision

MESH = {}


def sphere(level):
    """points, triangles (rows of three point numbers) of the mesh of this level"""
    if level not in MESH:
        mesh = MeshIcosahedronSubdivision.build(level)
        MESH[level] = (numpy.array(mesh.points, float), numpy.array(mesh.triangles[:, 1:], int))
    return MESH[level]


def cartesian(polar):
    la, lo = numpy.radians(numpy.asarray(polar, float).reshape(-1, 2)).T
    return numpy.array([numpy.cos(la) * numpy.cos(lo), numpy.cos(la) * numpy.sin(lo), numpy.sin(la)]).T.reshape(-1, 3)


def containing(level, polar):
    """for each place: list of (triangle, weights) of the triangles that contain it, allowing for rounding"""
    points, triangles = sphere(level)
    corner = points[triangles]                      # n x corner x xyz
    inverse = numpy.linalg.inv(numpy.transpose(corner, (0, 2, 1)))
    result = []
    for v in cartesian(polar):
        w = inverse.dot(v)
        total = w.sum(axis=1)
        inside = (total > 0) & (w.min(axis=1) > -1e-7 * numpy.abs(total))
        result.append([(int(k), w[k] / total[k]) for k in numpy.nonzero(inside)[0]])
    return result


def sphere_A(level, polar, triangles_kept=None):
    """weights (places x points), and whether the row is certain (inside or outside all kept triangles)"""
    points, triangles = sphere(level)
    polar = numpy.asarray(polar, float).reshape(-1, 2)
    A = numpy.zeros((len(polar), len(points)))
    certain = numpy.ones(len(polar), bool)
    for i, found in enumerate(containing(level, polar)):
        kept = [(t, w) for t, w in found if triangles_kept is None or t in triangles_kept]
        certain[i] = bool(found) and len(kept) in (0, len(found))
        if kept:
            t, w = max(kept, key=lambda x: x[1].min())
            A[i, triangles[t]] = numpy.maximum(w, 0) / numpy.maximum(w, 0).sum()
    return A, certain


def finite_elements(points, triangles):
    """mass (diagonal) and stiffness matrices of piecewise linear functions on the triangles"""
    n = len(points)
    C, G = numpy.zeros(n), numpy.zeros((n, n))
    for t in triangles:
        p = points[t]
        area = 0.5 * numpy.linalg.norm(numpy.cross(p[1] - p[0], p[2] - p[0]))
        C[t] += area / 3
        # gradients of the three hat functions in the plane of the triangle
        normal = numpy.cross(p[1] - p[0], p[2] - p[0]) / (2 * area)
        gradient = [numpy.cross(normal, p[(k + 2) % 3] - p[(k + 1) % 3]) / (2 * area) for k in range(3)]
        for a in range(3):
            for b in range(3):
                G[t[a], t[b]] += area * gradient[a].dot(gradient[b])
    return C, G


def kappa_tau(log_sigma, log_rho, alpha, d):
    """parameters of (kappa^2 - Laplacian)^(alpha/2) tau x = noise with given standard deviation and range, on R^d"""
    nu = alpha - d / 2.0
    kappa = math.sqrt(8 * nu) * numpy.exp(-log_rho)
    variance = math.gamma(nu) / (math.gamma(alpha) * (4 * math.pi) ** (d / 2.0)) * kappa ** (-2 * nu)
    return kappa, numpy.sqrt(variance) * numpy.exp(-log_sigma)


def sphere_Q(C, G, log_sigma, log_rho, alpha):
    """log_sigma, log_rho: one number or one for each point (complex allowed: derivative by complex step)"""
    one = numpy.ones(len(C))
    kappa, tau = kappa_tau(log_sigma * one, log_rho * one, alpha, 2)
    K = numpy.diag(kappa * C * kappa) + G
    step = K.dot(numpy.diag(1 / C))
    Q = K.dot(numpy.diag(1 / C)).dot(K) if alpha % 2 == 0 else K
    for _ in range(3 if alpha % 2 else 4, alpha + 1, 2):
        Q = step.dot(Q).dot(step.T)
    return tau[:, None] * Q * tau[None, :]


def lattice_axes(dims, wrap):
    """nodes of each axis and spacing"""
    axes, spacing = [], []
    for k, (lo, hi, n) in enumerate(dims):
        h = (hi - lo) / float(n if wrap and wrap[k] else n - 1)
        spacing.append(h)
        axes.append([lo + h * i for i in range(n)])
    return axes, spacing


def lattice_nodes(dims, wrap):
    """all nodes, first dimension fastest"""
    axes, _ = lattice_axes(dims, wrap)
    nodes = [[]]
    for axis in reversed(axes):
        nodes = [[x] + rest for rest in nodes for x in axis]
    return numpy.array(nodes, float)


def wendland(r):
    r = numpy.minimum(1.0, r)
    return (1 - r) ** 6 * (35 * r ** 2 + 18 * r + 3) / 3


def lattice_A(dims, wrap, span, locations, kind='wendland'):
    """basis functions centred at the nodes (span in units of each dimension) at the locations"""
    nodes = lattice_nodes(dims, wrap)
    locations = numpy.asarray(locations, float).reshape(-1, len(dims))
    difference = locations[:, None, :] - nodes[None, :, :]
    for k, (lo, hi, _) in enumerate(dims):
        if wrap and wrap[k]:
            difference[:, :, k] -= (hi - lo) * numpy.round(difference[:, :, k] / (hi - lo))
    scaled = difference / numpy.asarray(span, float)
    if kind == 'wendland':
        return wendland(numpy.sqrt((scaled ** 2).sum(axis=2)))
    if kind == 'cone':
        return 1 - numpy.minimum(1, numpy.sqrt((scaled ** 2).sum(axis=2)))
    return numpy.prod(1 - numpy.minimum(1, numpy.abs(scaled)), axis=2)


def lattice_Q(dims, wrap, log_sigma, log_rho, alpha, H=None):
    _, spacing = lattice_axes(dims, wrap)
    n = [x[2] for x in dims]
    total = int(numpy.prod(n))
    kappa, tau = kappa_tau(log_sigma, log_rho, alpha, len(dims))
    K = kappa ** 2 * numpy.eye(total)
    strides = [int(numpy.prod(n[:k])) for k in range(len(n))]
    h = numpy.ones(len(n)) * (1.0 if H is None else H)
    for node in range(total):
        for k in range(len(n)):
            weight = h[k] / spacing[k] ** 2
            i = (node // strides[k]) % n[k]
            K[node, node] += 2 * weight
            for j in (i - 1, i + 1):
                if wrap and wrap[k]:
                    j %= n[k]
                if 0 <= j < n[k]:
                    K[node, node + (j - i) * strides[k]] -= weight
    Q = K if alpha == 1 else K.dot(K)
    return numpy.prod(spacing) * tau ** 2 * Q


