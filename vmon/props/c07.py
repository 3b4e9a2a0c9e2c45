"""Planes through any point with normals of any length 1e-6..1e6 (axis-aligned, nearly so,
generic), from three points in both orders, from two points and a vector, and fitted to
clouds of 3..20000 points; query stacks of 0..20000 points, some exactly on the plane.
Oracle: definitions in 80-bit arithmetic; the smallest eigenvalue of the scatter matrix
(symmetric eigensolver) for the fit. Non-trivial: at least one query point."""
import numpy as np
from blmath.geometry import Plane
from vmon import ref
from vmon.core import workload


def check_plane(c, plane, point, normal, ntol, what):
    """The plane is the one through point with (unit, 80-bit) normal."""
    n = c.get(plane, 'normal')
    c.check(np.shape(n) == (3,), '%s: normal of shape %s', what, np.shape(n))
    c.close(ref.norm(n), 1., 1e-14, what + ': unit normal')
    c.close(n, normal, ntol, what + ': normal')
    r0 = c.get(plane, 'reference_point')
    s = 1 + ref.maxabs(point)
    c.close(ref.dot(ref.ld(r0) - ref.ld(point), n), 0., 1e-14 * s, what + ': reference point on the plane')


def check_queries(c, plane, pts):
    """Everything agrees with the coordinate along the plane's normal."""
    n, r0 = ref.ld(plane.normal), ref.ld(plane.reference_point)
    s = ref.maxabs(pts, r0) + 1e-300
    tol = 4e-15 * s
    want = ref.dot(ref.ld(pts) - r0, n)
    sd = c.call(plane.signed_distance, pts)
    c.close(sd, want, tol, 'signed distance')
    c.close(c.call(plane.distance, pts), np.abs(sd), 0., 'distance')
    sg = c.call(plane.sign, pts)
    c.equal(sg, np.sign(sd), 'sign')
    eq = c.get(plane, 'equation')
    c.check(np.shape(eq) == (4,), 'equation of shape %s', np.shape(eq))
    c.close(eq[:3], n, 0., 'equation: A, B, C')
    c.close(ref.dot(ref.ld(pts), eq[:3]) + ref.ld(eq[3]), want, tol, 'equation at the points')
    for inv in (False, True):
        mask = sd <= 0 if inv else sd >= 0
        kw = {'inverted': inv} if inv or c.g.chance(0.5) else {}
        idx = c.call(plane.points_in_front, pts, ret_indices=True, **kw)
        c.equal(idx, np.flatnonzero(mask), 'points in front, indices, inverted=%s' % inv)
        c.equal(c.call(plane.points_in_front, pts, **kw), pts[mask], 'points in front, inverted=%s' % inv)
    foot = c.get(plane, 'canonical_point')
    c.close(foot, ref.dot(r0, n) * n, 4e-15 * ref.maxabs(r0), 'foot of the origin')
    for i in c.rng.integers(0, len(pts), 3) if len(pts) else []:
        p, w = pts[i], want[i]
        if c.g.chance(0.2) and np.abs(p).max() < 1000:  # given in whole numbers
            p = np.round(p).astype(c.g.pick(['i8', 'i4', 'i2']))
            w = ref.dot(ref.ld(p) - r0, n)
        t = tol + 4e-15 * float(np.abs(p).max())
        q = c.call(plane.project_point, p)
        c.close(q, ref.ld(p) - w * n, 2 * t, 'projection')
        c.close(ref.dot(ref.ld(q) - r0, n), 0., 3 * t, 'projection lies on the plane')
        c.close(c.call(plane.signed_distance, p), w, t, 'signed distance of one point')
    f = c.call(plane.flipped)
    c.close(c.get(f, 'normal'), -n, 2e-15, 'flipped normal')
    r0 = np.asarray(c.get(plane, 'reference_point'))
    c.close(c.get(f, 'reference_point'), r0, 1e-15 * np.max(np.abs(r0)), 'reference point of the flipped plane')
    c.close(c.call(f.signed_distance, pts), -want, 2 * tol, 'signed distance to the flipped plane')
    c.equal(plane.signed_distance(pts), sd, 'flipping leaves the plane as it was')


def query_points(c, plane_point, normal):
    g = c.g
    n = g.count(0, 60, 40000, 0.015)
    pts = g.cloud(n)
    if np.size(plane_point) and g.chance(0.5) and ref.maxabs(plane_point):
        pts = pts * ref.maxabs(plane_point)
    if n and g.chance(0.5):
        pts = pts + plane_point
    if n and g.chance(0.3):
        k = g.integer(0, n - 1)
        pts[:k] -= np.outer((pts[:k] - plane_point).dot(normal), normal)
    c.trivial = n == 0
    c.bucket('%s query points' % ('no' if n == 0 else '1' if n == 1 else '2-63' if n < 64 else '64+'))
    pts = g.layout(pts)
    return c.input('points', pts)


@workload(quick=4000)
def point_and_normal(c):
    g = c.g
    n = g.vector(1e-6, 1e6)
    p = g.cloud(1)[0] * g.unit()
    if g.chance(0.2) and ref.maxabs(p) < 1e6:
        p = np.round(p).astype(int)
    if g.chance(0.2) and np.all(n == np.round(n)):
        n = n.astype(int)
    c.input('point', p), c.input('normal', n)
    plane = c.call(Plane, g.pick([p, p.tolist(), g.layout(p)]), g.layout(n))
    u = ref.unit(n)
    check_plane(c, plane, p, u, 4e-16, 'point and normal')
    c.equal(plane.reference_point, p, 'reference point')
    check_queries(c, plane, query_points(c, np.asarray(p, dtype=float), np.asarray(u, dtype=float)))


@workload(quick=1500)
def points_on_the_plane(c):
    """Exact arithmetic: points on, before and behind an axis-aligned plane."""
    g = c.g
    k = g.integer(0, 2)
    n = np.zeros(3)
    n[k] = g.pick([1., -1., 2., -0.5, 1e-3])
    p = g.rng.integers(-9, 10, 3).astype(float)
    m = g.size(1, 400 if g.chance(0.1) else 40)
    pts = g.rng.integers(-4, 5, (m, 3)).astype(float)
    on = g.rng.random(m) < g.pick([0., 0.3, 0.3, 1.])
    pts[on, k] = p[k]
    if g.chance(0.3):
        pts = pts.astype(int)
    c.input('point', p), c.input('normal', n), c.input('points', pts)
    plane = c.call(Plane, p, n)
    want = np.sign(n[k]) * (pts[:, k] - p[k])
    c.equal(c.call(plane.signed_distance, pts), want, 'signed distance')
    c.equal(c.call(plane.sign, pts), np.sign(want), 'sign')
    c.equal(c.call(plane.points_in_front, pts), pts[want >= 0], 'points in front or on the plane')
    c.equal(c.call(plane.points_in_front, pts, inverted=True), pts[want <= 0], 'points behind or on the plane')
    c.equal(c.call(plane.points_in_front, pts, inverted=True, ret_indices=True), np.flatnonzero(want <= 0), 'indices behind')
    c.equal(c.call(plane.points_in_front, pts, ret_indices=True), np.flatnonzero(want >= 0), 'indices in front')


@workload(quick=4000)
def three_points(c):
    g = c.g
    P = g.cloud(3)
    cr = ref.cross(ref.ld(P[1]) - P[0], ref.ld(P[2]) - P[0])
    s = ref.maxabs(P) + 1e-300
    size = float(ref.norm(cr))
    e = max(float(ref.norm(P[1] - P[0])), float(ref.norm(P[2] - P[0])))
    if size < 1e-6 or size < 1e-6 * e * e:
        P = P + np.array([[0, 0, 0], [1., 2., 0.5], [-1, 0.5, 3.]]) * max(s, 1e-2)
        cr = ref.cross(ref.ld(P[1]) - P[0], ref.ld(P[2]) - P[0])
        s = ref.maxabs(P)
        size = float(ref.norm(cr))
        e = max(float(ref.norm(P[1] - P[0])), float(ref.norm(P[2] - P[0])))
        if size < 1e-6 or size < 1e-6 * e * e:
            return c.check(True, '')
    c.input('points', P)
    ntol = 1e-15 + 4e-15 * (e * e + e * s * 0.1) / size
    args = [list(P), P.tolist(), [g.layout(p) for p in P]][g.integer(0, 2)]
    if np.all(P == np.round(P)) and g.chance(0.5):
        args = P.astype(int).tolist()
    plane = c.call(Plane.from_points, *args)
    u = cr / ref.norm(cr)
    check_plane(c, plane, P[0], u, ntol, 'three points')
    sd = c.call(plane.signed_distance, P)
    c.close(sd, np.zeros(3), ntol * e + 1e-14 * s, 'the three points lie on the plane')
    other = c.call(Plane.from_points, *[args[i] for i in (1, 0, 2)])
    c.close(other.normal, -u, ntol, 'swapping two points turns the normal round')
    check_queries(c, plane, query_points(c, P[0], np.asarray(u, dtype=float)))


@workload(quick=3000)
def two_points_and_vector(c):
    g = c.g
    P = g.cloud(2)
    if ref.norm(P[1] - P[0]) < 1e-2:
        P[1] = P[0] + g.direction() * (0.1 + ref.maxabs(P))
    s = ref.maxabs(P)
    v = g.vector(1e-2, 1e3)
    e = ref.ld(P[1]) - P[0]
    sin = float(ref.norm(ref.cross(ref.unit(e), ref.unit(v))))
    if sin < 1e-4 or sin * float(ref.norm(e) * ref.norm(v)) < 1e-6:
        d = np.asarray(ref.unit(e), dtype=float)
        v = np.array([d[1] - d[2], d[2] + d[0] + 2, 1 - d[0]])
        v = v - d * v.dot(d) if np.linalg.norm(np.cross(v, d)) > 0.1 else np.array([d[1], -d[0], d[2] + 3])
        sin = float(ref.norm(ref.cross(ref.unit(e), ref.unit(v))))
        if sin < 1e-4 or sin * float(ref.norm(e) * ref.norm(v)) < 1e-6:
            return c.check(True, '')
    c.input('points', P), c.input('vector', v)
    L = float(ref.norm(e))
    ntol = 1e-15 + 4e-15 * (1 + s * 0.1 / L) / sin
    u = ref.unit(ref.cross(e, v))
    a = [P[0], P[1], v]
    if g.chance(0.4):
        a = [x.tolist() for x in a]
    plane = c.call(Plane.from_points_and_vector, *a)
    check_plane(c, plane, P[0], u, ntol, 'two points and a vector')
    c.close(c.call(plane.signed_distance, P), np.zeros(2), ntol * L + 1e-14 * s, 'both points lie on the plane')
    c.close(ref.dot(plane.normal, ref.unit(v)), 0., ntol, 'the vector is parallel to the plane')
    c.equal(plane.reference_point, P[0], 'the reference point is the first point')


@workload(quick=2500)
def best_fit(c):
    g = c.g
    n = g.count(4, 80, 20000, 0.02) if g.chance(0.8) else 3
    P = g.cloud(n, lo=1e-1)
    if g.chance(0.3):
        P = P * g.scale(1e-7, 1e5)
    if g.chance(0.6):  # nearly or exactly planar, placed anywhere
        P = P.copy()
        P[:, 2] *= g.pick([0., 1e-9, 1e-3, 0.2])
        P = P.dot(g.rotation().T) + g.direction() * g.pick([0., 1., 100.])
    fit(c, P)


def fit(c, P):
    g, n = c.g, len(P)
    s = ref.maxabs(P) + 1e-300
    q = ref.ld(P) - ref.ld(P).mean(axis=0)
    w, V = np.linalg.eigh(np.asarray(ref.matmul(q.T, q), dtype=float))
    w = np.maximum(w, 0)
    if not w[1] > 1e-6 * w[2] or w[2] < 1e-4 * s * s * 1e-4:
        c.trivial = True
        return c.check(True, '')
    c.input('points', P)
    c.bucket('planar' if w[0] < 1e-12 * w[2] else 'solid', '3 points' if n == 3 else 'more')
    plane = c.call(Plane.fit_from_points, g.layout(P))
    nrm = ref.ld(c.get(plane, 'normal'))
    c.close(ref.norm(nrm), 1., 1e-14, 'unit normal')
    c.close(plane.reference_point, ref.ld(P).mean(axis=0), 3e-16 * s * (30 + n), 'through the centroid')
    cost = float(np.sum(ref.dot(q, nrm) ** 2))
    c.check(np.isrealobj(plane.normal), 'normal %r', plane.normal)
    c.check(cost <= w[0] * (1 + 1e-9) + 1e-11 * w[2] + 1e-22 * n * s * s, 'squared distances sum to %g, the best plane has %g (largest %g)', cost, w[0], w[2])


@workload(quick=6000)
def symmetric_fit(c):
    """Regular polygons, prisms, grids and lattices in any position: spread alike in two directions."""
    g = c.g
    k = g.count(3, 12, 200, 0.05)
    a = np.arange(k) * 2 * np.pi / k + g.pick([0., g.rng.uniform(0, 7)])
    P = np.stack([np.cos(a), np.sin(a), 0 * a], 1)
    kind = g.pick(['polygon', 'polygon', 'rings', 'prism', 'grid', 'star'])
    if kind == 'rings':
        P = np.vstack([P * r for r in g.rng.uniform(.1, 2, g.integer(2, 4))])
    elif kind == 'prism':
        P = np.vstack([P, P + [0, 0, g.pick([1e-9, 1e-3, .5])]])
    elif kind == 'grid':
        i, j = np.mgrid[:min(k, 15), :min(k, 15)]
        P = np.stack([i.ravel(), j.ravel(), 0. * i.ravel()], 1)
    elif kind == 'star':
        P = np.vstack([P, np.zeros((1, 3))])
        P[:-1:2] *= g.rng.uniform(.1, 2) if k % 2 == 0 else 1.
    P = P.dot(g.rotation().T) * g.scale(1e-3, 1e3)
    P = P + g.direction() * g.pick([0., 0., .1, 1., 100.])
    c.bucket(kind)
    fit(c, P)


@workload(quick=300)
def refused(c):
    g = c.g
    p = g.vector()
    z = g.pick([np.zeros(3), -np.zeros(3), np.zeros(3, dtype=int), np.array([0., -0., 1e-10])])
    c.input('point', p), c.input('normal', z)
    c.raises(ValueError, Plane, p, z)
    a = g.rng.integers(-5, 6, 3).astype(float)
    d = g.rng.integers(-5, 6, 3).astype(float)
    k, m = g.integer(-3, 3), g.integer(-3, 3)
    c.input('line', [a, d, k, m])
    c.raises(ValueError, Plane.from_points, a, a + k * d, a + m * d)
    c.raises(ValueError, Plane.from_points_and_vector, a, a + k * d, m * d)
