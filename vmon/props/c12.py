"""Open and closed polylines of 1..2000 vertices whose vertices are spread over both sides of a
plane in 0..many runs (end points a hair from the plane included), cut in every position of
the first vertex. Oracle: side of every vertex and edge parameter of every crossing in 80-bit
arithmetic; the expected front part is assembled directly. Non-trivial: at least one edge."""
import numpy as np
from blmath.geometry import Plane, Polyline
from vmon import ref
from vmon.core import workload, Skip, Violation

EPS = 2.3e-16


def make(c, crossings=None, hair=False):
    """A polyline and a plane clear of its vertices; crossings fixes the number of sign changes."""
    g = c.g
    closed = g.chance(0.5)
    n = g.count(1, 16, 20000 if g.chance(0.1) else 2000, 0.02)
    nrm = g.direction()
    p0 = g.cloud(1)[0]
    plane = Plane(p0, nrm * g.pick([1., 1., 3.]))
    s0 = 1 + ref.maxabs(p0)
    if crossings is None:
        front = g.rng.random(n) < g.pick([0.5, 0.5, 0.1, 0.9, 0., 1.])
    else:
        front = np.zeros(n, dtype=bool)
        if closed:
            n = max(n, 2)
            a, b = sorted(g.rng.choice(n, 2, replace=False))
            front = np.zeros(n, dtype=bool)
            front[a:b] = True  # not all, not none
        else:
            n = max(n, 2)
            front = np.arange(n) < g.integer(1, n - 1)
        if g.chance(0.5):
            front = ~front
    r = g.rng.random()
    if r < 0.5:
        v = g.cloud(n, lo=1e-1)
    elif r < 0.7:
        v = g.rng.integers(-4, 5, (n, 3)).astype(float)
    else:
        v = np.cumsum(g.rng.normal(size=(n, 3)), axis=0)
    u = np.asarray(plane.normal)
    h = np.abs((v - p0).dot(u)) + 1e-6 * s0
    k = g.rng.random(n)
    h = np.where(k < 0.1, 10. ** g.rng.uniform(-9, 0, n) * (s0 + ref.maxabs(v)), h)
    h = np.where((k > 0.1) & (k < 0.15), g.pick([1., 100.]), h)
    if hair:  # as close as rounding allows, or closer
        h = np.where(g.rng.random(n) < g.pick([0.1, 0.3]), 10. ** g.rng.uniform(-17, -13, n) * (s0 + ref.maxabs(v)), h)
    v = v - np.outer((v - p0).dot(u), u) + np.outer(np.where(front, h, -h), u)
    if g.chance(0.1):  # axis-aligned, exact numbers
        u = np.zeros(3)
        i = g.integer(0, 2)
        u[i] = g.pick([1., -1.])
        plane = Plane(np.round(p0), u)
        v = np.round(v)
        v[:, i] = round(p0[i]) + np.where(front, 1, -1) * u[i] * g.rng.integers(1, 4, n)
    k = g.unit()
    v = v * k
    plane = Plane(np.asarray(plane.reference_point) * k, plane.normal)
    d = ref.dot(ref.ld(v) - plane.reference_point, plane.normal)
    s = ref.maxabs(v, plane.reference_point)
    if np.min(np.abs(d)) < 1e-12 * s and not hair:
        raise Skip()
    c.input('v', v), c.input('closed', closed), c.input('plane', [np.asarray(plane.reference_point), np.asarray(plane.normal)])
    p = c.call(Polyline, np.array(v), closed=closed)
    E = np.stack([np.arange(n), (np.arange(n) + 1) % n], 1)
    if not closed:
        E = E[:-1]
    side = np.asarray(d > 0)
    if hair:  # arithmetic decides the side of a vertex within rounding of the plane
        sign = c.call(plane.sign, p.v)
        c.check(np.all((np.sign(d) == sign) | (np.abs(d) < 2e-15 * s)), 'side of a vertex that is clear of the plane')
        if np.any(sign == 0) or np.any((np.abs(d) < 1e-9 * s)[E].all(axis=1)):
            raise Skip()
        side = np.asarray(sign > 0)
    cut = np.flatnonzero(side[E[:, 0]] != side[E[:, 1]])
    a, b = E[cut, 0], E[cut, 1]
    t = d[a] / (d[a] - d[b])
    x = ref.ld(v[a]) + t[:, None] * (ref.ld(v[b]) - v[a])
    L = ref.norm(ref.ld(v[b]) - v[a])
    tol = 12 * EPS * s * (1 + L / np.abs(d[a] - d[b]))
    c.trivial = len(E) == 0
    c.bucket('closed' if closed else 'open', '%s crossings' % (len(cut) if len(cut) < 5 else '5+'))
    return p, v, closed, plane, side, E, cut, x, tol


def unchanged(c, p, v, closed):
    c.equal(p.v, v, 'the original polyline')
    c.check(bool(p.closed) == closed and len(p.e) == (len(v) if closed else len(v) - 1), 'the original polyline changed')


@workload(quick=5000)
def crossings(c):
    p, v, closed, plane, side, E, cut, x, tol = make(c)
    forms = [p.intersect_plane, lambda *a, **k: plane.polyline_xsection(p, *a[1:], **k)]
    f = c.g.pick(forms)
    got, idx = c.call(f, plane, ret_edge_indices=True)
    c.equal(idx, cut, 'crossing edges')
    c.close(got, x, tol[:, None] if len(tol) else 0., 'crossing points')
    got2 = c.call(c.g.pick(forms), plane)
    c.close(got2, got, 2 * tol[:, None] if len(tol) else 0., 'the points do not depend on ret_edge_indices')
    if closed and len(cut) == 2 or not closed and len(cut) == 1:
        cut_part(c, p, v, closed, plane, side, E, cut, x, tol)
    else:
        c.raises(ValueError, p.cut_by_plane, plane)
    unchanged(c, p, v, closed)


def cut_part(c, p, v, closed, plane, side, E, cut, x, tol):
    part = c.call(p.cut_by_plane, plane)
    c.check(isinstance(part, Polyline), 'cut_by_plane returned %r', type(part))
    c.check(not part.closed, 'the part in front is closed')
    if closed:
        up = [k for k in (0, 1) if not side[E[cut[k], 0]]][0]  # back to front
        first = E[cut[up], 1]
        count = int(side.sum())
        order = (first + np.arange(count)) % len(v)
        want = np.vstack([x[up], v[order], x[1 - up]])
        t = np.concatenate([[tol[up]], np.zeros(count), [tol[1 - up]]])
    elif side[0]:
        want = np.vstack([v[side], x[0]])
        t = np.concatenate([np.zeros(int(side.sum())), [tol[0]]])
    else:
        want = np.vstack([x[0], v[side]])
        t = np.concatenate([[tol[0]], np.zeros(int(side.sum()))])
    c.close(part.v, want, t[:, None], 'the part in front')
    c.equal(part.e[:, 0], np.arange(len(want) - 1), 'its edges')


@workload(quick=1500)
def touching(c):
    """Vertices exactly on the plane (exact numbers throughout)."""
    g = c.g
    closed = g.chance(0.3)
    n = g.size(2, 12)
    i = g.integer(0, 2)
    u = np.zeros(3)
    u[i] = g.pick([1., -1.])
    o = g.rng.integers(-5, 6, 3).astype(float)
    v = g.rng.integers(-6, 7, (n, 3)).astype(float) / g.pick([1, 4])
    h = g.rng.integers(1, 5, n) * (g.rng.choice([-1, 1], n) if g.chance(0.5) else 1)
    ends = not closed and g.chance(0.6)
    if ends:
        h = np.abs(h)
        h[g.pick([0, -1])] = 0
    else:
        z = g.rng.random(n) < 0.3
        z &= ~np.roll(z, 1)  # an edge in the plane has no single point
        z[0] &= not z[-1]
        h = np.where(z, 0, h)
    v[:, i] = o[i] + u[i] * h
    k = g.unit()
    v, o = v * k, o * k
    plane = Plane(o, u * g.pick([1., 2.]))
    c.input('v', v), c.input('closed', closed), c.input('plane', [o, u])
    c.bucket('closed' if closed else 'open', 'touches at one end' if ends else '%d on the plane' % min(3, int((h == 0).sum())))
    p = c.call(Polyline, np.array(v), closed=closed)
    s = np.sign(h)
    E = np.stack([np.arange(n), (np.arange(n) + 1) % n], 1)
    if not closed:
        E = E[:-1]
    hit = np.flatnonzero(s[E[:, 0]] != s[E[:, 1]])
    got, idx = c.call(p.intersect_plane, plane, ret_edge_indices=True) if g.chance(0.5) else c.call(plane.polyline_xsection, p, ret_edge_indices=True)
    c.equal(idx, hit, 'edges that meet the plane')
    for e, x in zip(E[hit], got):
        on = [j for j in e if s[j] == 0]
        if on:
            c.equal(x, v[on[0]], 'the end that lies on the plane')
    if ends:
        part = c.call(p.cut_by_plane, plane)
        c.check(isinstance(part, Polyline) and not part.closed, 'the part in front: %r', part)
        c.equal(part.v, v, 'a polyline in front that touches the plane with one end')
    unchanged(c, p, v, closed)


@workload(quick=5000)
def cuts(c):
    p, v, closed, plane, side, E, cut, x, tol = make(c, crossings=True)
    cut_part(c, p, v, closed, plane, side, E, cut, x, tol)
    unchanged(c, p, v, closed)


@workload(quick=4000)
def hairs(c):
    """Vertices within rounding of the plane, to one side of it: no part may get lost."""
    p, v, closed, plane, side, E, cut, x, tol = make(c, crossings=c.g.chance(0.8) or None, hair=True)
    s = ref.maxabs(v, plane.reference_point)
    d = ref.dot(ref.ld(v) - plane.reference_point, plane.normal)
    unsure = np.flatnonzero(np.abs(d) < 2e-15 * s)[:4]
    c.bucket('%d vertices within rounding of the plane' % len(unsure))
    first = None
    # first the sides plane.sign gives; but any side will do, when rounding decides
    for flip in range(2 ** len(unsure)):
        other = side.copy()
        other[unsure] ^= (flip >> np.arange(len(unsure)) & 1).astype(bool)
        cut = np.flatnonzero(other[E[:, 0]] != other[E[:, 1]])
        a, b = E[cut, 0], E[cut, 1]
        t = d[a] / (d[a] - d[b])
        x = ref.ld(v[a]) + t[:, None] * (ref.ld(v[b]) - v[a])
        tol = 12 * EPS * s * (1 + ref.norm(ref.ld(v[b]) - v[a]) / np.abs(d[a] - d[b]))
        try:
            got, idx = c.call(p.intersect_plane, plane, ret_edge_indices=True)
            c.equal(idx, cut, 'crossing edges')
            c.close(got, x, tol[:, None] if len(tol) else 0., 'crossing points')
            if closed and len(cut) == 2 or not closed and len(cut) == 1:
                cut_part(c, p, v, closed, plane, other, E, cut, x, tol)
            else:
                c.raises(ValueError, p.cut_by_plane, plane)
            break
        except Violation as e:
            first = first or e
    else:
        raise first
    unchanged(c, p, v, closed)
