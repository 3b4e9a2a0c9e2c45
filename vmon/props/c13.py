"""Pairs of lines in the plane and in space with the common point before, between, beyond or
at the given points, crossing angles down to 1e-3, any placement and scale; parallel and
repeated lines with small integers times powers of two. Oracle: the intersection by Cramer's
rule in 80-bit arithmetic (plane), the constructed common point (space)."""
import numpy as np
from blmath.geometry.segment import line_intersect, line_intersect3
from vmon import ref
from vmon.core import workload, Skip

EPS = 2.3e-16


def forms(c, pts, lists):
    k = c.g.integer(0, 2)
    if k == 0 and lists:
        return [p.tolist() for p in pts]
    if k == 1 and all(np.all(p == np.round(p)) for p in pts) and np.max(np.abs(pts)) < 1e6:
        return [p.astype(int) for p in pts]
    return [c.g.layout(p) for p in pts]


def place(c, g):
    """Parameters of the two given points of a line relative to the crossing."""
    a = g.pick([0., 1., -1., g.rng.normal(), g.rng.normal(), g.rng.normal() * 30, 10. ** g.rng.uniform(-6, 0)])
    b = g.pick([a + 1, a - 1, 0., -a, a + g.rng.normal() * 3, 2 * a])
    return a, (b if abs(b - a) > 1e-2 * (1 + abs(a)) else a + (1 + abs(a)) * g.pick([1, -1]))


@workload(quick=9000)
def plane_lines(c):
    g = c.g
    if g.chance(0.25):
        P = g.rng.integers(-6, 7, (4, 2)).astype(float)
    else:
        x = g.cloud(1, d=2)[0]
        P = np.zeros((4, 2))
        e = g.direction(2)
        f = g.direction(2)
        if g.chance(0.2):
            f = e + np.array([-e[1], e[0]]) * 10. ** g.rng.uniform(-3, 0) * g.pick([1, -1])
        s = g.scale(1e-1, 1e1) if g.chance(0.8) else g.scale(1e-9, 1e6)
        for k, d in ((0, e), (2, f)):
            a, b = place(c, g)
            P[k], P[k + 1] = x + a * s * d, x + b * s * d
        P = P * g.unit()
    p0, q0, p1, q1 = c.input('points', P)
    e, f = ref.ld(q0) - p0, ref.ld(q1) - p1
    det = e[0] * f[1] - e[1] * f[0]
    le, lf = ref.norm(e), ref.norm(f)
    if le == 0 or lf == 0 or abs(det) < 1e-3 * le * lf:
        raise Skip()
    t = ((p1[0] - ref.ld(p0[0])) * f[1] - (p1[1] - ref.ld(p0[1])) * f[0]) / det
    want = p0 + t * e
    sin = abs(det) / (le * lf)
    s = ref.maxabs(P, want)
    ratio = max(le / lf, lf / le)
    tol = 40 * EPS * s / sin * ratio
    c.bucket('shared point' if any(np.array_equal(a, b) for a in (p0, q0) for b in (p1, q1)) else 'no shared point',
             'axis-aligned' if np.any(np.abs(e) == 0) else 'oblique')
    got = c.call(line_intersect, *forms(c, P, True))
    c.close(got, want, tol, 'crossing')


def exact_parallel(c, dim):
    g = c.g
    u = 2. ** g.integer(*g.pick([(-6, 6), (-6, 6), (-30, 20)]))
    d = g.rng.integers(-9, 10, dim)
    if g.chance(0.3):
        d[g.integer(0, dim - 1)] = 0
    if not np.any(d):
        d[0] = 1
    p, q = g.rng.integers(-20, 21, (2, dim))
    if g.chance(0.4):  # the same line
        q = p + g.integer(-8, 8) * d
    k, m = g.integer(1, 40) * g.pick([1, -1]), g.integer(1, 40) * g.pick([1, -1])
    return np.array([p, p + k * d, q, q + m * d]) * u


@workload(quick=5000)
def plane_parallel(c):
    P = c.input('points', exact_parallel(c, 2))
    got = c.call(line_intersect, *forms(c, P, True))
    c.check(np.shape(got) == (2,) and np.all(np.isnan(got)), 'parallel lines meet at %s', got)


@workload(quick=9000)
def space_lines(c):
    g = c.g
    r = g.rng.random()
    e, f = g.direction(), g.direction()
    if r < 0.15:
        k = np.cross(e, g.direction() + [.1, .2, .3])
        f = e + k / np.linalg.norm(k) * 10. ** (g.rng.uniform(-3, 0) if g.chance(0.5) else g.rng.uniform(-10, -3))
    sin = float(ref.norm(ref.cross(ref.unit(e), ref.unit(f))))
    if sin < 1e-3 and r >= 0.15:
        raise Skip()
    x = g.cloud(1)[0]
    u = g.scale(1e-1, 1e2)
    if g.chance(0.25):  # exact numbers
        x = np.round(x)
        e, f = g.rng.integers(-3, 4, (2, 3)).astype(float)
        u = 1.
        sin = float(ref.norm(ref.cross(e, f)) / max(ref.norm(e) * ref.norm(f), 1e-9))
        if sin < 1e-3:
            raise Skip()
    P = np.zeros((4, 3))
    for k, d in ((0, e), (2, f)):
        a, b = place(c, g)
        if u == 1. and np.all(d == np.round(d)):
            a, b = float(g.integer(-4, 4)), float(g.integer(-4, 4))
            b = b if b != a else a + 1
        P[k], P[k + 1] = x + a * u * d, x + b * u * d
    k = g.unit()
    P, x = P * k, x * k
    c.input('points', P)
    at = [int(i) for i in range(4) if np.array_equal(P[i], x)]
    c.bucket('given ' + ','.join('p0 q0 p1 q1'.split()[i] for i in at) if at else 'not given')
    L = [float(ref.norm(P[1] - P[0])), float(ref.norm(P[3] - P[2]))]
    s = ref.maxabs(P, x)
    g_ = float(ref.norm(P[0] - P[2]))
    far = max(float(ref.norm(p - x)) for p in P)
    if EPS * s > 1e-3 * sin * min(L):
        raise Skip()  # rounding the points makes the lines parallel
    tol = 60 * EPS * (s + g_ + far) / sin * (1 + far / min(L))
    got = c.call(line_intersect3, *forms(c, P, False))
    c.check(isinstance(got, np.ndarray) and got.shape == (3,), 'lines that meet give %r', got)
    c.close(got, x, tol, 'the common point')


@workload(quick=4000)
def space_parallel(c):
    P = exact_parallel(c, 3)
    if any(np.array_equal(P[i], P[j]) for i in (0, 1) for j in (2, 3)):
        raise Skip()
    c.input('points', P)
    got = c.call(line_intersect3, *forms(c, P, False))
    c.check(got is None, 'parallel lines meet at %s', got)
