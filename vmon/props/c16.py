"""Planar and nearly planar curves (3..2000 vertices: random, convex, star-shaped, with repeated
and collinear vertices, integer grids) in any placement, including planes perpendicular to and
a hair off the axes, open and closed, normal given (either sign) or not. Oracle: the plane by a
symmetric eigensolver; convexity and containment by supporting lines of the returned polygon
and by the support function of the curve in 90 directions, 80-bit coordinates.
Non-trivial: at least three vertices."""
import numpy as np
from blmath.geometry import Polyline
from blmath.geometry.convexify import convexify_planar_curve
from blmath.geometry.transform.rotation import estimate_normal, rotate_to_xz_plane
from blmath.geometry.transform.translation import translation
from vmon import ref
from vmon.core import workload, Skip


def frame(n):
    """Two 80-bit unit vectors spanning the plane with normal n."""
    n = ref.ld(n)
    e = np.zeros(3, dtype=ref.LD)
    e[np.argmin(np.abs(n))] = 1
    a = ref.cross(n, e)
    a = a / ref.norm(a)
    return np.stack([a, ref.cross(n, a)], 1)


def curve(c):
    g = c.g
    n = g.count(3, 60, 6000 if g.chance(0.1) else 2000, 0.02)
    k = g.integer(0, 5)
    if k == 0:
        p = g.rng.normal(size=(n, 2))
    elif k == 1:
        t = np.sort(g.rng.uniform(0, 2 * np.pi, n))
        p = np.stack([np.cos(t), np.sin(t)], 1)
    elif k == 2:
        t = np.linspace(0, 2 * np.pi, n, endpoint=False)
        p = np.stack([np.cos(t), np.sin(t)], 1) * (1 + 0.6 * np.sin(5 * t))[:, None]
    elif k == 3:
        p = g.rng.integers(-4, 5, (n, 2)).astype(float)
    elif k == 4:
        p = g.rng.uniform(-1, 1, (n, 2))
        p[g.rng.random(n) < 0.3, 0] = 1.
    else:
        p = np.cumsum(g.rng.normal(size=(n, 2)), axis=0)
    if n > 4 and g.chance(0.3):
        p[g.integer(0, n - 1)] = p[g.integer(0, n - 1)]
    p = p * np.array([1., g.pick([1., 1., 0.2])]) * g.scale(1e-1, 1e2) * g.unit()
    size = ref.maxabs(p)
    noise = g.pick([0., 0., 1e-9, 1e-4, 1e-2]) * size
    v = np.column_stack([p[:, 0], noise * g.rng.uniform(-1, 1, n), p[:, 1]])
    r = g.rng.random()
    if r < 0.3:
        R = np.eye(3)
    elif r < 0.5:
        R = g.axis_angle(g.direction(), 10. ** g.rng.uniform(-9, -2)) if g.chance(0.5) else g.axis_angle([1, 0, 0.3], np.pi - 10. ** g.rng.uniform(-9, -2))
    else:
        R = g.rotation()
    v = v.dot(R.T)
    if g.chance(0.5):
        v = v - v.mean(axis=0) * g.pick([0., 1.])
    if g.chance(0.6):
        v = v + g.direction() * size * g.pick([1e-3, 1., 10.])
    return v


def analyse(c, v, given=None):
    q = ref.ld(v) - ref.ld(v).mean(axis=0)
    w, V = np.linalg.eigh(np.asarray(ref.matmul(q.T, q), dtype=float))
    if not (w[1] > 1e-3 * w[2]) or w[1] < 1e-16 * ref.maxabs(v) ** 2 * len(v) or w[0] > 0.1 * w[1]:
        raise Skip()
    return V[:, 0]


def check_hull(c, v, idx, n, dev, what):
    F = frame(n)
    q = ref.ld(v) - ref.ld(v).mean(axis=0)
    p = ref.matmul(q, F)
    h = p[idx]
    c.check(len(h) >= 3, '%s: %d vertices', what, len(h))
    diam = 2 * float(np.max(ref.norm(p)))
    e = dev * 4 + 2e-13 * (diam + ref.maxabs(v) * 1e-2)
    a, b = h, np.roll(h, -1, axis=0)
    area = np.sum(a[:, 0] * b[:, 1] - a[:, 1] * b[:, 0]) / 2
    d = b - a
    L = ref.norm(d)
    c.check(np.all(L > 0), '%s: a vertex is repeated', what)
    out = np.stack([d[:, 1], -d[:, 0]], 1) / L[:, None] * np.sign(area)
    over = np.max(p.dot(out.T) - np.sum(a * out, axis=1)[None], axis=0)
    tol = e * (1 + diam / L)
    k = int(np.argmax(over - tol))
    c.check(over[k] <= tol[k], '%s: not convex or not containing the curve: a vertex is %g outside the edge %d (allowed %g)', what, float(over[k]), k, float(tol[k]))
    t = np.linspace(0, 2 * np.pi, 90, endpoint=False)
    D = np.stack([np.cos(t), np.sin(t)], 0)
    gap = float(np.max(np.max(p.dot(D), axis=0) - np.max(h.dot(D), axis=0)))
    c.check(gap <= e, '%s: the curve reaches %g beyond it (allowed %g)', what, gap, e)
    per = float(np.sum(L))
    # simple, once round: the area of the polygon is that of its hull
    want = hull_area(np.asarray(h, dtype=float))
    c.close(abs(area), want, e * per * 2 + 1e-9 * want, what + ': area')


def hull_area(p):
    p = sorted(map(tuple, p.tolist()))

    def half(points):
        out = []
        for x in points:
            while len(out) > 1 and (out[-1][0] - out[-2][0]) * (x[1] - out[-2][1]) - (out[-1][1] - out[-2][1]) * (x[0] - out[-2][0]) <= 0:
                out.pop()
            out.append(x)
        return out
    h = half(p)[:-1] + half(p[::-1])[:-1]
    h = np.array(h)
    b = np.roll(h, -1, axis=0)
    return 0.5 * abs(float(np.sum(h[:, 0] * b[:, 1] - h[:, 1] * b[:, 0])))


@workload(quick=3500)
def hulls(c):
    g = c.g
    v = curve(c)
    n = analyse(c, v)
    closed = g.chance(0.6)
    c.input('v', v), c.input('closed', closed)
    kw = {}
    if g.chance(0.5):
        n = n * g.pick([1., -1.])
        n = n / np.linalg.norm(n)
        tilted = g.chance(0.4)
        if tilted:  # the caller's idea of the normal
            n = g.axis_angle(g.direction(), g.pick([1e-6, 1e-3, 0.02, 0.3]) * g.rng.random()).dot(n)
            n = n / np.linalg.norm(n)
            c.bucket('normal given is not that of the best plane')
        n = n * (1 + 2.3e-16 * g.pick([0, 0, 1, -1, 2]))  # a unit vector, up to rounding
        kw['normal'] = c.input('normal', n * g.pick([1., 1., 10. ** g.rng.uniform(-3, 3)]))
    flatten = c.input('flatten', g.chance(0.5) or 'normal' in kw and tilted)
    if flatten or g.chance(0.5):
        kw['flatten'] = flatten
    want = g.chance(0.7)
    if want or g.chance(0.5):
        kw['want_vertices'] = want
    p = Polyline(np.array(g.layout(v)), closed=closed)
    got = c.call(convexify_planar_curve, p, **kw)
    c.equal(p.v, v, 'the input')
    c.check(bool(p.closed) == closed, 'the input')
    idx = None
    if want:
        got, idx = got
        idx = np.asarray(idx)
    c.check(isinstance(got, Polyline) and got is not p, 'returned %r', type(got))
    c.check(bool(got.closed) == closed, 'closed=%s for closed=%s', got.closed, closed)
    mean = ref.ld(v).mean(axis=0)
    h = ref.dot(ref.ld(v) - mean, n)
    dev = float(np.max(np.abs(h)))
    size = float(np.max(ref.norm(ref.ld(v) - mean)))
    s = ref.maxabs(v)
    near = np.hypot(n[0], n[2]) < 1.2e-5
    c.bucket('flatten' if flatten else 'keep', 'normal near y' if near else 'other normal', 'noisy' if dev > 1e-6 * size else 'planar',
             'normal given' if 'normal' in kw else 'normal estimated')
    if flatten:
        target = ref.ld(v) - h[:, None] * ref.ld(n)
        tol = (2e-10 + 1e-13) * size + 1e-14 * s
        if idx is None:
            from scipy.spatial import cKDTree
            idx = cKDTree(np.asarray(target, dtype=float)).query(got.v)[1]
        c.check(len(idx) == len(got.v), '%d indices for %d vertices', len(idx), len(got.v))
        c.close(got.v, target[idx], tol, 'hull vertices projected onto the plane')
        # seen along the normal; without reported indices, vertices that nearly coincide are not told apart
        if not want:
            idx = idx[idx != np.roll(idx, -1)]
        check_hull(c, v, idx, n, 1e-9 * dev, 'flattened hull')
    else:
        if idx is None:
            rows = {}
            for i, r in enumerate(v.tolist()):
                rows[tuple(r)] = i
            idx = [rows.get(tuple(r)) for r in got.v.tolist()]
            c.check(None not in idx, 'a hull vertex is not a vertex of the curve')
            idx = np.array(idx)
        c.equal(got.v, v[idx], 'hull vertices at the reported indices')
        check_hull(c, v, idx, n, dev, 'hull')
    got.v[:] = 7.
    c.equal(p.v, v, 'the input, after a change of the hull')


@workload(quick=100)
def tiny(c):
    g = c.g
    v = np.array(g.vector()).reshape(1, 3) if g.chance(0.6) else np.zeros((0, 3))
    c.input('v', v)
    p = Polyline(None if not len(v) and g.chance(0.5) else v.copy(), closed=g.chance(0.5))
    closed = p.closed
    q = c.call(convexify_planar_curve, p, flatten=g.chance(0.5))
    c.check(isinstance(q, Polyline), 'returned %r', type(q))
    c.equal(np.zeros((0, 3)) if q.v is None else q.v, v, 'a curve of at most one point')
    c.check(q.closed == closed, 'closed')


@workload(quick=2500)
def parts(c):
    """The rotation, normal and translation used by it."""
    g = c.g
    v = curve(c)
    n0 = analyse(c, v)
    c.input('v', v)
    s = ref.maxabs(v)
    n = c.call(estimate_normal, g.layout(v))
    c.close(ref.norm(n), 1., 1e-14, 'unit normal')
    q = ref.ld(v) - ref.ld(v).mean(axis=0)
    best = float(np.sum(ref.dot(q, n0) ** 2))
    c.check(float(np.sum(ref.dot(q, n) ** 2)) <= best * (1 + 1e-9) + 1e-18 * len(v) * s * s, 'not the normal of the best plane')
    t = g.vector() if g.chance(0.5) else None
    img, f = c.call(translation, g.layout(v), t) if t is not None else c.call(translation, g.layout(v))
    want = ref.ld(t) if t is not None else -ref.ld(v).mean(axis=0)
    c.close(f, want, 1e-15 * (8 + len(v)) * s if t is None else 0., 'translation factor')
    c.close(img, ref.ld(v) + ref.ld(f), 3e-16 * (s + ref.maxabs(f)), 'translated points')
    given = g.chance(0.6)
    if given:
        n = g.direction() if g.chance(0.5) else n0 / np.linalg.norm(n0)
        n = n * (1 + 2.3e-16 * g.pick([0, 0, 1, -1, 2]))
        n = n * g.pick([1., 1., 10. ** g.rng.uniform(-3, 3)])
        c.input('normal', n)
    r, R, p0 = c.call(rotate_to_xz_plane, g.layout(v), normal=n) if given else c.call(rotate_to_xz_plane, g.layout(v))
    c.close(ref.matmul(R, R.T), np.eye(3), 1e-14, 'orthogonal')
    c.check(np.linalg.det(R) > 0, 'determinant')
    c.close(ref.matmul(R, ref.unit(n)[:, None])[:, 0], [0, 1, 0], 1e-10, 'the normal goes to y')
    moved = ref.ld(v) + (0 if p0 is None else ref.ld(p0))
    c.close(r, ref.matmul(moved, R.T), 1e-14 * s, 'rotated points')
    m = np.asarray(moved.mean(axis=0), dtype=float)
    c.check(np.linalg.norm(m) <= 1e-5 + 1e-14 * len(v) * s, 'the center is not moved to the origin')
    c.raises(ValueError, rotate_to_xz_plane, g.pick([None, np.zeros((0, 3))]))
