"""Lines and segments against planes of any placement: generic, nearly parallel (down to
cos 1e-8), exactly parallel, axis-aligned in either, end points a hair from the plane, stacks
of 0..3000 rows mixing all of them. Oracle: the crossing parameter in 80-bit arithmetic, with
the forward error bound of the formula as tolerance. Non-trivial: at least one row."""
import numpy as np
from blmath.geometry import Plane
from vmon import ref
from vmon.core import workload

EPS = 2.3e-16


def make_plane(c):
    g = c.g
    p = g.cloud(1)[0]
    n = g.direction() * g.pick([1., 1., 7.])
    c.unit = g.unit()
    p = p * c.unit
    c.input('plane', [p, n])
    return Plane(p, n)


def in_plane_exact(c, n):
    """A direction whose double-precision dot product with the normal is exactly zero, or None."""
    n = np.asarray(n)
    opts = []
    for i in range(3):
        if n[i] == 0:
            e = np.zeros(3)
            e[i] = c.g.pick([1., -1., 3.5])
            opts.append(e)
        for j in range(3):
            if i != j and abs(n[i]) == abs(n[j]) and n[i] != 0:
                e = np.zeros(3)
                e[i] = 1.
                e[j] = -np.sign(n[i]) * np.sign(n[j])
                opts.append(e * c.g.pick([1., 2., -3.]))
    if np.count_nonzero(n == 0) == 2:
        e = c.rng.normal(size=3)
        e[n != 0] = 0.
        opts.append(e)
    return c.g.pick(opts) if opts else None


def reference(plane, pts, rays):
    """Crossing points and error bounds, 80-bit, of the lines."""
    n, r0 = ref.ld(plane.normal), ref.ld(plane.reference_point)
    d = ref.dot(rays, n)
    with np.errstate(all='ignore'):
        t = ref.dot(r0 - ref.ld(pts), n) / d
        x = ref.ld(pts) + t[:, None] * ref.ld(rays)
        L = ref.norm(rays)
        s = ref.norm(pts) + ref.norm(r0)
        tol = L / np.abs(d) * (6 * EPS * s + 6 * EPS * np.abs(t) * L) + 6 * EPS * (np.abs(t) * L + s)
    return t, x, tol, np.abs(d) / L


def check_crossing(c, plane, pt, x, tol, what):
    c.check(isinstance(pt, np.ndarray) and pt.shape == (3,), '%s: not a point: %r', what, pt)
    c.close(pt, x, tol, what)


def line_rows(c, plane, n):
    """n (point, direction) rows; exact[i] marks an exactly parallel one."""
    g = c.g
    pts = g.cloud(n) * c.unit
    if g.chance(0.3):
        pts = pts + plane.reference_point
    rays = np.zeros((n, 3))
    exact = np.zeros(n, dtype=bool)
    nrm = np.asarray(plane.normal)
    mode = g.pick(['any', 'any', 'parallels', 'all parallel', 'near'])
    for i in range(n):
        r = g.rng.random()
        e = in_plane_exact(c, nrm) if mode == 'all parallel' or (mode == 'parallels' and r < 0.3) else None
        if e is not None and float(np.dot(e, nrm)) == 0 and float(np.sum(e * nrm)) == 0:
            rays[i], exact[i] = e, True
            if g.chance(0.3):
                pts[i] = plane.reference_point  # a line in the plane
        elif mode == 'near' and r < 0.5:
            e = np.cross(nrm, g.direction() + [.1, .2, .3])
            rays[i] = e + nrm * g.pick([1, -1]) * 10. ** g.rng.uniform(-7, -1) * np.linalg.norm(e)
        else:
            rays[i] = g.direction() * (g.scale(1e-2, 1e2) if g.chance(0.7) else g.scale(1e-12, 1e8))
    cosb = np.abs(ref.dot(rays, nrm)) / np.maximum(ref.norm(rays), 1e-300) if n else np.zeros(0)
    bad = ~exact & (cosb < 1e-8)
    rays[bad] = nrm * g.pick([1., -2.])
    return pts, rays, exact


@workload(quick=5000)
def one_line(c):
    plane = make_plane(c)
    pts, rays, exact = line_rows(c, plane, 1)
    pt, ray = c.input('pt', pts[0]), c.input('ray', rays[0])
    form = c.g.integer(0, 2)
    a = [(pt, ray), (pt.tolist(), tuple(ray.tolist())), (c.g.layout(pt), c.g.layout(ray))][form]
    got = c.call(plane.line_xsection, *a)
    c.bucket('parallel' if exact[0] else 'crossing')
    if exact[0]:
        c.check(got is None, 'a parallel line crosses at %r', got)
        return
    t, x, tol, _ = reference(plane, pts, rays)
    check_crossing(c, plane, got, x[0], tol[0], 'crossing of a line')
    c.close(ref.dot(ref.ld(got) - plane.reference_point, plane.normal), 0., tol[0], 'lies on the plane')
    c.close(ref.norm(ref.cross(ref.ld(got) - pt, ref.unit(ray))), 0., tol[0], 'lies on the line')


@workload(quick=2500)
def many_lines(c):
    g = c.g
    plane = make_plane(c)
    n = g.count(0, 30, 20000 if g.chance(0.1) else 3000, 0.02)
    pts, rays, exact = line_rows(c, plane, n)
    c.input('pts', pts), c.input('rays', rays)
    c.trivial = n == 0
    c.bucket('rows 64+' if n >= 64 else 'rows <64', 'mixed' if exact.any() and not exact.all() else 'all parallel' if n and exact.all() else 'no parallel')
    got, ok = c.call(plane.line_xsections, g.layout(pts), g.layout(rays))
    c.equal(ok, ~exact, 'rows flagged as crossing')
    c.check(got.shape == (n, 3), 'shape %s', got.shape)
    if not n:
        return
    t, x, tol, _ = reference(plane, pts, rays)
    c.close(got[~exact], x[~exact], tol[~exact][:, None], 'crossings')
    c.check(np.all(np.isnan(got[exact])), 'rows without a crossing hold %s', got[exact][:3])
    for i in g.rng.integers(0, n, 4):
        one = plane.line_xsection(pts[i], rays[i])
        if exact[i]:
            c.check(one is None, 'the single form reports %r', one)
        else:
            c.close(got[i], one, 2 * tol[i], 'same as the single form')


def segment_rows(c, plane, n):
    """(a, b, side): side 0 = crossing, 1 = same side, 2 = parallel; strictly off the plane."""
    g = c.g
    nrm = np.asarray(plane.normal)
    r0 = np.asarray(plane.reference_point, dtype=float)
    a = g.cloud(n) * c.unit
    b = g.cloud(n) * c.unit
    if g.chance(0.5):
        a, b = a + r0, b + r0
    if g.chance(0.4) and n:  # axis-aligned segments: some coordinates of a and b agree
        m = g.rng.random((n, 3)) < 0.6
        b[m] = a[m]
    if g.chance(0.3) and n:  # short ones straddling or beside the plane
        foot = a - np.outer((a - r0).dot(nrm), nrm)
        h = c.unit * 10. ** g.rng.uniform(-8, 1, (2, n)) * g.rng.choice([-1., 1.], (2, n))
        a, b = foot + h[0][:, None] * nrm, foot + h[1][:, None] * nrm + g.rng.normal(size=(n, 3)) * c.unit * 10. ** g.rng.uniform(-6, 1)
    if g.chance(0.2) and n:
        e = in_plane_exact(c, nrm)
        if e is not None:
            k = g.rng.random(n) < 0.4
            b[k] = a[k] + e * c.unit * g.rng.uniform(0.1, 9)
    da, db = ref.dot(ref.ld(a) - r0, nrm), ref.dot(ref.ld(b) - r0, nrm)
    s = ref.norm(a) + ref.norm(b) + ref.norm(r0)
    clear = 3e-14 * s
    bad = (np.abs(da) <= clear) | (np.abs(db) <= clear)
    if np.any(bad):
        k = np.flatnonzero(bad)
        a[k] = r0 + nrm * (c.unit + ref.maxabs(r0))
        b[k] = r0 - nrm * g.pick([1., -2., 3.]) * (c.unit + ref.maxabs(r0))
        da, db = ref.dot(ref.ld(a) - r0, nrm), ref.dot(ref.ld(b) - r0, nrm)
    return a, b, (da > 0) != (db > 0)


@workload(quick=5000)
def one_segment(c):
    plane = make_plane(c)
    a, b, crosses = segment_rows(c, plane, 1)
    c.input('a', a[0]), c.input('b', b[0])
    args = [(a[0], b[0]), (a[0].tolist(), b[0].tolist()), (c.g.layout(a[0]), c.g.layout(b[0]))][c.g.integer(0, 2)]
    got = c.call(plane.line_segment_xsection, *args)
    rev = c.call(plane.line_segment_xsection, *args[::-1])
    c.bucket('crosses' if crosses[0] else 'one side')
    if not crosses[0]:
        c.check(got is None and rev is None, 'a segment on one side crosses at %r / %r', got, rev)
        return
    t, x, tol, _ = reference(plane, a, b - a)
    tol = tol + 4 * EPS * (ref.norm(a) + ref.norm(b))
    for p, what in ((got, 'crossing of a segment'), (rev, 'crossing of the reversed segment')):
        check_crossing(c, plane, p, x[0], 2 * tol[0], what)
        c.check(np.all(p >= np.minimum(a[0], b[0]) - tol[0]) and np.all(p <= np.maximum(a[0], b[0]) + tol[0]), 'not between the end points')


@workload(quick=2500)
def many_segments(c):
    g = c.g
    plane = make_plane(c)
    n = g.count(0, 40, 20000 if g.chance(0.1) else 3000, 0.03)
    a, b, crosses = segment_rows(c, plane, n)
    if n and g.chance(0.2):
        w = g.pick([True, False])
        a, b, crosses = [z[crosses == w] for z in (a, b, crosses)]
        n = len(a)
    c.input('a', a), c.input('b', b)
    c.trivial = n == 0
    c.bucket('rows 64+' if n >= 64 else 'rows <64', 'none cross' if not crosses.any() else 'all cross' if crosses.all() else 'some cross')
    got, ok = c.call(plane.line_segment_xsections, g.layout(a), g.layout(b))
    c.equal(ok, crosses, 'rows flagged as crossing')
    c.check(got.shape == (n, 3), 'shape %s', got.shape)
    if not n:
        return
    t, x, tol, _ = reference(plane, a, b - a)
    tol = tol + 4 * EPS * (ref.norm(a) + ref.norm(b))
    c.close(got[crosses], x[crosses], 2 * tol[crosses][:, None], 'crossings')
    c.check(np.all(np.isnan(got[~crosses])), 'rows without a crossing hold %s', got[~crosses][:3])
    for i in g.rng.integers(0, n, 4):
        one = plane.line_segment_xsection(a[i], b[i])
        c.check((one is not None) == bool(crosses[i]), 'the single form reports %r', one)
        if one is not None:
            c.close(got[i], one, 2 * tol[i], 'same as the single form')


@workload(quick=2500)
def touching(c):
    """Exact arithmetic: end points on the plane count as crossings, segments within it do not."""
    g = c.g
    k = g.integer(0, 2)
    nrm = np.zeros(3)
    nrm[k] = g.pick([1., -1.])
    u = g.unit()
    p = g.rng.integers(-9, 10, 3).astype(float)
    n = g.count(1, 30, 3000, 0.05)
    a, b = g.rng.integers(-8, 9, (2, n, 3)).astype(float)
    h = g.rng.choice([0., 1., -1., 2., 4.], (2, n))
    two = np.sign(h[0]) * np.sign(h[1]) < 0
    h[1, two] = -h[0, two]  # half way: exact
    a[:, k], b[:, k] = p[k] + h[0], p[k] + h[1]
    a, b, p = a * u, b * u, p * u
    c.input('plane', [p, nrm]), c.input('a', a), c.input('b', b)
    plane = Plane(p, nrm)
    with np.errstate(all='ignore'):
        want = a + (b - a) * (h[0] / (h[0] - h[1]))[:, None]
    hit = (h[0] * h[1] <= 0) & (h[0] != h[1])
    got, ok = c.call(plane.line_segment_xsections, g.layout(a), g.layout(b))
    c.equal(ok, hit, 'rows flagged as crossing')
    c.equal(got[hit], want[hit], 'crossings')
    c.check(np.all(np.isnan(got[~hit])), 'rows without a crossing hold %s', got[~hit][:3])
    for i in range(min(n, 6)):
        one = c.call(plane.line_segment_xsection, a[i], b[i])
        if hit[i]:
            c.check(one is not None, 'no crossing at %s', want[i])
            c.equal(one, want[i], 'crossing')
        else:
            c.check(one is None, 'a crossing at %s', one)
    line, ok = c.call(plane.line_xsections, g.layout(a), g.layout(b - a))
    c.equal(ok, h[0] != h[1], 'lines flagged as crossing')
