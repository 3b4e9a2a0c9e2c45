"""Clouds of 1..80000 points (ties, duplicates, any placement) along axes of any length; curves
y = f(x) from random sinusoids, polynomials and bumps, 60..3000 samples, rigidly placed, in
both directions. Oracle: 80-bit coordinates and distances; analytic second derivative with
the truncation and rounding bound of the difference scheme as the margin."""
import numpy as np
from blmath.geometry import Polyline
from blmath.geometry.apex import apex, farthest, inflection_points
from vmon import ref
from vmon.core import workload, Skip

EPS = 2.3e-16


@workload(quick=5000)
def extreme(c):
    g = c.g
    P = g.cloud(g.count(1, 40, 80000 if g.chance(0.4) else 9000, 0.1))
    if g.chance(0.3):  # near ties
        P = P[:1] + (P - P[:1]) * 10. ** -g.integer(3, 12)
    P = P * g.unit()
    axis = g.vector(1e-3, 1e3) * g.unit()
    if len(P) > 60 and g.chance(0.6):  # the extreme one at the edge of a block
        i = g.edge(len(P) - 1)
        if i is not None:
            P[i] += axis / np.max(np.abs(axis)) * 3 * ref.maxabs(P)
    c.input('points', P), c.input('axis', axis)
    h = ref.dot(P, axis)
    tol = 4 * EPS * ref.maxabs(P) * float(np.sum(np.abs(axis)))
    for got in (c.call(apex, g.layout(P), g.layout(axis)), c.call(Polyline(np.array(P), closed=g.chance(0.5)).apex, axis)):
        c.check(np.shape(got) == (3,), 'shape %s', np.shape(got))
        c.check(np.any(np.all(P == got, axis=1)), 'the apex is not one of the points')
        c.check(ref.dot(got, axis) >= h.max() - tol, 'a point lies further along the axis by %g', float(h.max() - ref.dot(got, axis)))


@workload(quick=5000)
def far(c):
    g = c.g
    P = g.cloud(g.count(1, 40, 80000 if g.chance(0.4) else 9000, 0.1))
    if g.chance(0.3):  # nearly the same distance
        d0 = P - P.mean(axis=0)
        n = np.linalg.norm(d0, axis=1)[:, None]
        P = d0 / np.where(n == 0, 1, n) * (1 + g.rng.normal(size=n.shape) * 10. ** -g.integer(2, 13)) + g.pick([0., 1.])
    P = P * g.unit()
    if len(P) > 60 and g.chance(0.6):
        i = g.edge(len(P) - 1)
        if i is not None:
            P[i] += g.direction() * 6 * ref.maxabs(P)
    q = g.pick([g.cloud(1)[0], np.zeros(3), P[g.integer(0, len(P) - 1)] + 0., P.mean(axis=0), P[0] * 0 + np.round(P.mean(axis=0))])
    c.input('points', P), c.input('from', q)
    d = ref.norm(ref.ld(P) - q)
    got, i = c.call(farthest, g.layout(q), g.layout(P))
    c.check(0 <= i < len(P) and int(i) == i, 'index %r', i)
    c.equal(got, P[i], 'the point at the reported index')
    c.check(d[i] >= d.max() - 4 * EPS * (d.max() + ref.maxabs(P, q)), 'a point is farther by %g', float(d.max() - d[i]))


def function(c):
    """f and its derivatives of order 0..4."""
    g = c.g
    terms = []
    k = g.integer(0, 3)
    if k == 0:
        w = np.array([g.rng.normal() for _ in range(g.integer(4, 7))])
        P = np.polynomial.Polynomial(w)
        return lambda x, o: P.deriv(o)(x) if o else P(x)
    if k == 1:  # all curvature of one sign, or a single change
        s = g.pick([1., -1.])
        m = g.pick([0., 0., g.rng.uniform(-0.6, 0.6)])
        a = g.rng.uniform(0.5, 3)
        if g.chance(0.5):
            return lambda x, o: s * a ** o * np.exp(a * x)
        return lambda x, o: s * np.polynomial.Polynomial([-m, 1]).__pow__(3).deriv(o)(x) if o else s * (x - m) ** 3
    for _ in range(g.integer(1, 3)):
        terms.append((g.rng.normal(), g.rng.uniform(0.5, 7), g.rng.uniform(0, 6.3)))
    return lambda x, o: sum(A * w ** o * np.sin(w * x + ph + o * np.pi / 2) for A, w, ph in terms)


@workload(quick=1500)
def inflections(c):
    g = c.g
    f = function(c)
    n = g.size(60, 3000 if g.chance(0.1) else 400)
    x = np.linspace(-1, 1, n)
    h = x[1] - x[0]
    u = g.scale(1e-2, 1e2)
    dense = np.linspace(-1, 1, 20 * n)
    M4 = 1.1 * np.max(np.abs(f(dense, 4))) + 1e-300
    R = g.rotation()
    t = g.direction() * g.pick([0., 0., 1., 10.])
    pts = np.stack([x, f(x, 0), 0 * x], 1).dot(R.T) + t
    span, axis = R[:, 0], R[:, 1]
    if g.chance(0.5):
        pts = pts[::-1]
        xs = x[::-1]
    else:
        xs = x
    pts = np.ascontiguousarray(pts) * u
    s = ref.maxabs(pts) / u + 1
    if g.chance(0.3):
        axis, span = axis * g.scale(0.1, 10), span * g.scale(0.1, 10)
    c.input('points', pts), c.input('axis', axis), c.input('span', span)
    got = c.call(inflection_points, g.layout(pts), axis, span)
    got = np.asarray(got, dtype=float).reshape(-1, 3)
    slope = 1 + np.max(np.abs(f(dense, 1)))
    thr = 0.5 * h * h * M4 + 60 * EPS * s * slope / h ** 2
    idx = []
    for p in got:
        k = np.flatnonzero(np.all(pts == p, axis=1))
        c.check(len(k) > 0, 'a reported point is not one of the samples')
        idx.append(int(k[0]))
    idx = np.array(sorted(idx), dtype=int)
    f2 = f(xs, 2)
    inner = (np.arange(n) >= 3) & (np.arange(n) < n - 4)
    for i in idx:
        if not inner[i]:
            continue
        near = f(np.linspace(min(xs[i], xs[i + 1]) - 1e-9, max(xs[i], xs[i + 1]) + 1e-9, 9), 2)
        c.check(np.min(np.abs(near)) <= thr or (near.min() < 0 < near.max()),
                'reported at x=%g where the second derivative is %g (margin %g)', xs[i], f2[i], thr)
    fd = f(dense, 2)
    z = np.flatnonzero(fd[:-1] * fd[1:] <= 0)
    found = 0
    for k in z:
        x0 = dense[k]
        if abs(x0) > 1 - 8 * h:
            continue
        a, b = f(np.array([x0 - 2 * h, x0 - 3 * h]), 2), f(np.array([x0 + 2 * h, x0 + 3 * h]), 2)
        if np.all(a > thr) and np.all(b < -thr) or np.all(a < -thr) and np.all(b > thr):
            found += 1
            c.check(len(idx) and np.min(np.abs(xs[idx] - x0)) <= 3.5 * h, 'the change of curvature at x=%g is not reported', x0)
    c.bucket('%d sign changes' % min(found, 4), 'reversed' if xs[0] > xs[-1] else 'forward')
    c.check(True, '')


@workload(quick=600)
def on_a_sample(c):
    """Integer samples of an odd cubic: the change of curvature falls exactly on a vertex."""
    g = c.g
    n = g.integer(4, 15)
    k = g.integer(-n + 4, n - 4)
    x = np.arange(-n, n + 1.)
    a, b, d = g.pick([1, -1, 2]), g.integer(-5, 5), g.integer(-9, 9)
    y = a * (x - k) ** 3 + b * (x - k) + d
    E = np.eye(3)[g.rng.permutation(3)] * g.pick([1., -1., 2., 0.5])
    y = y * g.pick([1., 1., 2. ** -20, 2. ** -40, 2. ** -80, 2. ** 20])
    pts = x[:, None] * E[0] + y[:, None] * E[1] + g.integer(-3, 3) * E[2]
    if g.chance(0.5):
        pts = pts[::-1].copy()
    c.input('points', pts), c.input('axis', E[1]), c.input('span', E[0])
    got = np.asarray(c.call(inflection_points, g.layout(pts), E[1], E[0]), dtype=float).reshape(-1, 3)
    for p in got:
        c.check(np.any(np.all(pts == p, axis=1)), 'a reported point is not one of the samples')
    at = got.dot(E[0]) / E[0].dot(E[0])
    c.check(len(at) and np.min(np.abs(at - k)) <= 1, 'the inflection exactly at vertex x=%d is not reported', k)
    inner = at[np.abs(at) < n - 4]
    c.check(np.all(np.abs(inner - k) <= 2), 'reported away from the inflection: %s', inner)
    c.bucket('odd cubic', 'rising' if a > 0 else 'falling')
