"""Closed, open, holed and multi-component meshes (3..40000 faces; hulls, spheres, tori, tubes,
sheets, fans; renumbered, reordered, mixed winding, any index type) cut by planes of any
direction at any height that stays clear of every vertex. Oracle: the crossing graph rebuilt
independently (straddling edges as nodes, straddling faces as links) and an exact matching of
the returned polylines onto its components. Non-trivial: at least one straddling face."""
from collections import Counter
import numpy as np
from scipy.spatial import cKDTree
from scipy.sparse import coo_matrix
from scipy.sparse.csgraph import connected_components
from blmath.geometry import Plane, Polyline
from vmon import meshes, ref
from vmon.core import workload, Skip, Violation


def cutting_plane(c, m, miss=False):
    g = c.g
    n = g.direction()
    h = np.asarray(ref.dot(m.v, n), dtype=float)
    s = ref.maxabs(m.v)
    u = np.unique(h)
    if miss:
        t = u[-1] + 1e-3 * s * g.pick([1., 100.]) if g.chance(0.5) else u[0] - 1e-3 * s * g.pick([1., 100.])
    else:
        gaps = np.diff(u)
        ok = np.flatnonzero(gaps > 1e-6 * s)
        if not len(ok):
            raise Skip()
        k = g.pick(ok)
        f = g.pick([0.5, 0.5, g.rng.uniform(0.05, 0.95), 0.01, 0.99])
        t = u[k] + gaps[k] * f
    p = n * t
    if g.chance(0.5):
        q = g.direction() * s
        p = p + q - n * q.dot(n)
    plane = Plane(p, n * g.pick([1., 1., -1., 5.]))
    d = ref.dot(ref.ld(m.v) - p, plane.normal)
    if np.min(np.abs(d)) < 1e-9 * s:
        raise Skip()
    return plane, d, s


class Expected(object):
    def __init__(self, m, plane, d, side=None):
        side = np.asarray(d > 0) if side is None else side
        f = m.f.astype(np.int64)
        fs = side[f]
        self.cut = fs.any(axis=1) & ~fs.all(axis=1)
        F = f[self.cut]
        E = np.stack([F[:, [0, 1]], F[:, [1, 2]], F[:, [2, 0]]], 1)  # (k, 3, 2)
        E = np.sort(E, axis=2)
        straddle = side[E[..., 0]] != side[E[..., 1]]
        E = E[straddle].reshape(-1, 2, 2)  # two per face
        flat = E.reshape(-1, 2)
        self.edges, inv = np.unique(flat, axis=0, return_inverse=True)
        self.links = inv.reshape(-1, 2)
        a, b = self.edges[:, 0], self.edges[:, 1]
        da, db = d[a], d[b]
        with np.errstate(all='ignore'):
            self.points = ref.ld(m.v[a]) + (da / (da - db))[:, None] * (ref.ld(m.v[b]) - ref.ld(m.v[a]))
        n = len(self.edges)
        self.n = n
        if n:
            A = coo_matrix((np.ones(len(self.links)), (self.links[:, 0], self.links[:, 1])), shape=(n, n))
            self.ncomp, self.label = connected_components(A, directed=False)
            deg = np.bincount(self.links.ravel(), minlength=n)
            assert deg.max() <= 2, 'the generator made an edge with three faces'
            self.closed = np.array([np.all(deg[self.label == k] == 2) for k in range(self.ncomp)]) if self.ncomp < 50 else \
                np.bincount(self.label, weights=(deg != 2)) == 0
        else:
            self.ncomp, self.label, self.closed = 0, np.zeros(0, int), np.zeros(0, bool)
        self.pairs = set(map(tuple, np.sort(self.links, axis=1).tolist()))


def prepare(c, big=False, miss=False):
    m, kinds = meshes.mesh(c, big)
    plane, d, s = cutting_plane(c, m, miss)
    c.input('v', m.v), c.input('f', m.f), c.input('plane', [np.asarray(plane.reference_point), np.asarray(plane.normal)])
    x = Expected(m, plane, d)
    tol = 1e-13 * s / max(1e-6, float(np.min(np.abs(d))) / s) if len(d) else 0
    tol = min(tol, 1e-8 * s)
    # crossings far enough apart to tell them from each other
    if x.n > 1:
        near = cKDTree(np.asarray(x.points, dtype=float)).query(np.asarray(x.points, dtype=float), k=2)[0][:, 1]
        if near.min() < 10 * tol:
            raise Skip()
    m.v, m.f = c.g.layout(m.v), c.g.layout(m.f)
    c.trivial = x.n == 0
    c.bucket(*kinds)
    c.bucket('%d components' % min(x.ncomp, 5) if x.ncomp < 5 else '5+ components')
    if x.ncomp:
        c.bucket('open run' if not x.closed.all() else 'closed runs only')
        c.bucket('mixed' if x.closed.any() and not x.closed.all() else 'uniform')
    return m, plane, x, tol


def match(c, x, tree, verts, tol, what):
    c.check(np.ndim(verts) == 2 and np.shape(verts)[1] == 3, '%s: vertices of shape %s', what, np.shape(verts))
    dist, idx = tree.query(verts)
    c.check(np.all(dist <= tol * 2), '%s: a vertex is %g away from every crossing', what, np.max(dist))
    return idx


def check_component(c, x, tree, poly, tol, what):
    """-> component number"""
    c.check(isinstance(poly, Polyline), '%s is %r', what, type(poly))
    idx = match(c, x, tree, poly.v, tol, what)
    comp = x.label[idx[0]]
    size = int(np.sum(x.label == comp))
    c.check(len(idx) == size and len(np.unique(idx)) == size, '%s: %d vertices for a run of %d crossings', what, len(idx), size)
    c.check(np.all(x.label[idx] == comp), '%s joins separate runs', what)
    c.check(bool(poly.closed) == bool(x.closed[comp]), '%s: closed=%s for a run with closed=%s', what, poly.closed, x.closed[comp])
    nxt = np.sort(np.stack([idx[:-1], idx[1:]], 1), axis=1).tolist()
    if poly.closed:
        nxt.append(sorted([int(idx[-1]), int(idx[0])]))
    for e in nxt:
        c.check(tuple(e) in x.pairs, '%s: consecutive crossings are on different faces', what)
    return comp


def body(c, big):
    m, plane, x, tol = prepare(c, big)
    fs = c.call(plane.mesh_intersecting_faces, m)
    key = lambda a: np.asarray(sorted(map(tuple, np.asarray(a).tolist())))
    c.equal(key(fs), key(m.f[x.cut]), 'straddling faces')
    got = c.call(plane.mesh_xsections, m)
    c.check(isinstance(got, list), 'mesh_xsections returned %r', type(got))
    c.check(len(got) == x.ncomp, '%d polylines for %d connected runs', len(got), x.ncomp)
    one = c.call(plane.mesh_xsection, m)
    c.check(isinstance(one, Polyline), 'mesh_xsection returned %r', type(one))
    if not x.n:
        c.check(one.v is None or len(one.v) == 0, 'a plane that misses gives %r', one.v)
        return
    tree = cKDTree(np.asarray(x.points, dtype=float))
    seen = set(check_component(c, x, tree, p, tol, 'polyline %d' % i) for i, p in enumerate(got))
    c.check(len(seen) == x.ncomp, 'a run is reported twice')
    idx = match(c, x, tree, one.v, tol, 'merged polyline')
    c.check(np.array_equal(np.sort(idx), np.arange(x.n)), 'merged polyline: %d vertices for %d crossings', len(idx), x.n)


@workload(quick=3500)
def sections(c):
    body(c, False)


@workload(quick=600)
def coincident(c):
    """The same surface several times over, or cut up into separate triangles: crossings at
    the same place that are nonetheless crossings of different edges."""
    g = c.g
    m, plane, x, tol = prepare(c)
    if not x.n or len(m.f) > 3000:
        raise Skip()
    f, v = np.asarray(m.f, dtype=int), np.asarray(m.v)
    tree = cKDTree(np.asarray(x.points, dtype=float))
    soup = g.chance(0.4)
    if soup:
        w = meshes.Mesh(v[f].reshape(-1, 3), np.arange(3 * len(f)).reshape(-1, 3))
    else:
        k = g.integer(2, 4)
        w = meshes.Mesh(np.vstack([v] * k), np.vstack([f + i * len(v) for i in range(k)]))
        if g.chance(0.5):
            w.f = w.f[g.rng.permutation(len(w.f))]
    c.bucket('separate triangles' if soup else '%d copies' % k)
    got = c.call(plane.mesh_xsections, w)
    if soup:
        want = Counter(map(tuple, np.sort(x.links, axis=1).tolist()))
        seen = Counter()
        for p in got:
            idx = match(c, x, tree, p.v, tol, 'section of a triangle')
            c.check(len(idx) == 2 and not p.closed, 'section of a triangle with %d vertices, closed=%s', len(idx), p.closed)
            seen[tuple(sorted(int(i) for i in idx))] += 1
        c.check(seen == want, 'sections of separate triangles: %d, expected %d', len(got), len(x.links))
    else:
        seen = Counter(check_component(c, x, tree, p, tol, 'polyline %d' % i) for i, p in enumerate(got))
        c.check(seen == Counter({i: k for i in range(x.ncomp)}), '%d runs %d times over give %d polylines', x.ncomp, k, len(got))
    one = c.call(plane.mesh_xsection, w)
    idx = match(c, x, tree, one.v, tol, 'merged polyline')
    c.check(len(idx) == sum(len(p.v) for p in got), 'merged polyline: %d vertices', len(idx))


@workload(quick=1500)
def close(c):
    """A plane within rounding of a vertex, but to one side of it; and meshes in single precision."""
    g = c.g
    m, kinds = meshes.mesh(c)
    v = np.asarray(m.v, dtype=float)
    single = g.chance(0.4)
    if single:
        v = v.astype('f4').astype(float)
    f = np.asarray(m.f, dtype=int)
    s = ref.maxabs(v)
    if not 1e-30 < s < 1e30 or len(f) > 3000:
        raise Skip()
    n = g.direction()
    k = int(f.ravel()[g.integer(0, f.size - 1)])
    gap = s * g.pick([1e-16, 3e-16, 1e-15, 1e-14, 1e-12] + ([1e-9, 1e-8, 1e-7] if single else [])) * g.pick([1, -1])
    plane = Plane(v[k] + n * gap, n)
    m.v, m.f = g.layout(v.astype('f4')) if single else g.layout(v, whole=False), g.layout(f)
    c.input('v', m.v), c.input('f', m.f), c.input('plane', [np.asarray(plane.reference_point), np.asarray(plane.normal)])
    # the side a vertex is said to be on: within rounding of the plane, arithmetic may not tell
    sign = c.call(plane.sign, m.v)
    d = ref.dot(ref.ld(v) - plane.reference_point, plane.normal)
    err = 2e-15 * (s + abs(gap))
    c.check(np.all((np.sign(d) == sign) | (np.abs(d) < err)), 'side of a vertex that is clear of the plane')
    if np.any(sign[np.unique(f)] == 0):
        raise Skip()
    unsure = np.flatnonzero(np.abs(d) < err)[:3]
    first = None
    # first the sides plane.sign gives; but any side will do, when rounding decides
    for flip in range(2 ** len(unsure)):
        side = np.asarray(sign > 0)
        side[unsure] ^= (flip >> np.arange(len(unsure)) & 1).astype(bool)
        try:
            close_section(c, m, v, plane, d, s, side, single)
            return
        except Violation as e:
            first = first or e
        except Skip:
            if flip == 0:
                raise
    raise first


def close_section(c, m, v, plane, d, s, side, single):
    x = Expected(m, plane, d, side)
    if not x.n:
        raise Skip()
    reach = np.abs(d[x.edges[:, 0]] - d[x.edges[:, 1]])
    if np.min(reach) < 1e-6 * s:
        raise Skip()
    L = ref.norm(ref.ld(v[x.edges[:, 0]]) - v[x.edges[:, 1]])
    unit = 1.2e-7 if single else 2.3e-16  # an edge is measured in the precision it is given in
    tol = float(20 * s * (2.3e-16 * np.max(1 + L / reach) + unit))
    P = np.asarray(x.points, dtype=float)
    tree = cKDTree(P)
    # crossings in one place, as far as can be told, form a group
    near = tree.query_pairs(10 * tol, output_type='ndarray')
    _, group = connected_components(coo_matrix((np.ones(len(near)), (near[:, 0], near[:, 1])), shape=(x.n, x.n)), directed=False)
    spread = [np.ptp(P[group == q], axis=0).max() for q in np.flatnonzero(np.bincount(group) > 1)] if len(near) else [0.]
    if max(spread) > 200 * tol:
        raise Skip()
    deg = np.bincount(x.links.ravel(), minlength=x.n)
    for q in np.flatnonzero(~x.closed):
        ends = group[(x.label == q) & (deg == 1)]
        if ends[0] == ends[1]:
            raise Skip()  # a run that ends where it began
    c.bucket('single precision' if single else 'double precision', 'crossings in one place' if len(near) else 'distinct crossings',
             'open run' if not x.closed.all() else 'closed runs only')
    got = c.call(plane.mesh_xsections, m)
    c.check(len(got) == x.ncomp, '%d polylines for %d connected runs', len(got), x.ncomp)
    want = Counter((int(np.sum(x.label == q)), bool(x.closed[q])) for q in range(x.ncomp))
    c.check(Counter((len(p.v), bool(p.closed)) for p in got) == want, 'polylines of %s vertices (closed?), for runs of %s', [(len(p.v), p.closed) for p in got], sorted(want.elements()))
    links = Counter()
    places = Counter()
    for i, p in enumerate(got):
        idx = group[match(c, x, tree, p.v, 2 * tol, 'polyline %d' % i)]
        places.update(idx.tolist())
        pairs = np.stack([idx[:-1], idx[1:]], 1).tolist() + ([[idx[-1], idx[0]]] if p.closed and len(idx) > 2 else [])
        links.update((int(min(e)), int(max(e))) for e in pairs)
    c.check(places == Counter(group.tolist()), 'crossings missing, or reported twice')
    if all(len(p.v) > 2 for p in got if p.closed):
        c.check(links == Counter((int(min(a, b)), int(max(a, b))) for a, b in group[x.links]), 'crossings joined other than along faces')


@workload(quick=24)
def large_sections(c):
    body(c, True)


@workload(quick=300)
def misses(c):
    m, plane, x, tol = prepare(c, miss=True)
    c.trivial = False
    fs = c.call(plane.mesh_intersecting_faces, m)
    c.check(len(fs) == 0, '%d faces said to intersect', len(fs))
    c.check(len(c.call(plane.mesh_xsections, m)) == 0, 'a section where there is none')
    near = c.g.rng.normal(size=(2, 3))
    c.check(len(c.call(plane.mesh_xsections, m, neighborhood=near)) == 0, 'a section where there is none')
    p = c.call(plane.mesh_xsection, m)
    c.check(p.v is None or len(p.v) == 0, 'a section where there is none')


@workload(quick=2500)
def neighborhoods(c):
    g = c.g
    m, plane, x, tol = prepare(c)
    if not x.n:
        raise Skip()
    P = np.asarray(x.points, dtype=float)
    s = ref.maxabs(m.v)
    k = g.pick([1, 1, 2, 5, 40])
    base = P[g.integer(0, x.n - 1)] if g.chance(0.7) else g.rng.normal(size=3) * s
    nb = base + g.rng.normal(size=(k, 3)) * s * g.pick([0., 1e-3, 0.1, 1.])
    if g.chance(0.2):
        nb = P[g.rng.integers(0, x.n, k)]
    c.input('neighborhood', nb)
    d = np.min(np.sqrt(np.sum((P[:, None] - nb[None]) ** 2, axis=2)), axis=1) if x.n * k < 4e6 else cKDTree(nb).query(P)[0]
    means = np.bincount(x.label, weights=d) / np.bincount(x.label)
    o = np.argsort(means)
    if x.ncomp > 1 and means[o[1]] - means[o[0]] < 1e-7 * s:
        raise Skip()
    c.bucket('choice' if x.ncomp > 1 else 'no choice', 'chosen run open' if not x.closed[o[0]] else 'chosen run closed')
    tree = cKDTree(P)
    got = c.call(plane.mesh_xsections, m, neighborhood=nb)
    c.check(len(got) == 1, '%d polylines', len(got))
    comp = check_component(c, x, tree, got[0], tol, 'polyline near the neighborhood')
    c.check(comp == o[0], 'run %d at mean distance %g instead of run %d at %g', comp, means[comp], o[0], means[o[0]])
    one = c.call(plane.mesh_xsection, m, neighborhood=nb)
    idx = match(c, x, tree, one.v, tol, 'merged polyline')
    c.check(np.array_equal(np.sort(idx), np.flatnonzero(x.label == o[0])), 'merged polyline is not the nearest run')


@workload(quick=160)
def long_runs(c):
    """Runs of 100..3000 crossings and neighborhoods for which the mean distance decides otherwise
    than the least, the middle or the largest distance, or the distance of one end."""
    g = c.g
    vs, fs, n, kinds = [], [], 0, []
    for _ in range(g.integer(2, 4)):
        k = g.count(100, 1200, 3000, 0.05)
        t = np.linspace(0, 1, k)
        kind = g.pick(['line', 'arc', 'spiral', 'circle'])
        if kind == 'line':
            xy = np.stack([t * 10, 0 * t], 1)
        elif kind == 'circle':
            a = np.linspace(0, 2 * np.pi, k, endpoint=False)
            xy = 3 * np.stack([np.cos(a), np.sin(a)], 1)
        else:
            a = t * (g.rng.uniform(1, 6) if kind == 'arc' else 15)
            xy = (3 * np.ones(k) if kind == 'arc' else 1 + 4 * t)[:, None] * np.stack([np.cos(a), np.sin(a)], 1)
        if g.chance(0.5):  # unevenly spread crossings
            xy = xy + g.rng.normal(size=2) * (t ** 3 if kind != 'circle' else 0 * t)[:, None] * 5
        q = g.rng.uniform(0, 2 * np.pi)
        xy = xy.dot(np.array([[np.cos(q), np.sin(q)], [-np.sin(q), np.cos(q)]])) + g.rng.normal(size=2) * 8
        v = np.concatenate([np.column_stack([xy, -np.ones(k)]), np.column_stack([xy, np.ones(k)])])
        i = np.arange(k)
        j = (i + 1) % k
        if kind != 'circle':
            i, j = i[:-1], j[:-1]
        f = np.concatenate([np.stack([i, j, i + k], 1), np.stack([i + k, j, j + k], 1)])
        vs.append(v), fs.append(f + n), kinds.append(kind)
        n += len(v)
    R, shift, s0 = g.rotation(), g.rng.normal(size=3) * 10, g.scale(1e-2, 1e2)
    v, f = np.vstack(vs).dot(R.T) * s0 + shift * s0, np.vstack(fs)
    if g.chance(0.5):
        p = g.rng.permutation(len(v))
        inv = np.argsort(p)
        v, f = v[p], inv[f]
    if g.chance(0.5):
        f = f[g.rng.permutation(len(f))] if g.chance(0.5) else f[::-1]
    m = meshes.Mesh(g.layout(v), g.layout(f))
    plane = Plane((R.dot([0., 0., g.rng.uniform(-0.5, 0.5)]) + shift) * s0, R[:, 2] * g.pick([1., -1.]))
    d = ref.dot(ref.ld(v) - np.asarray(plane.reference_point), plane.normal)
    x = Expected(m, plane, d)
    P = np.asarray(x.points, dtype=float)
    tree = cKDTree(P)
    s = ref.maxabs(v)
    tol = 1e-12 * s
    if tree.query(P, k=2)[0][:, 1].min() < 10 * tol or x.ncomp < 2:
        raise Skip()
    parts = [np.flatnonzero(x.label == k) for k in range(x.ncomp)]
    lo, hi = P.min(axis=0), P.max(axis=0)
    best = None
    for _ in range(30):
        nb = g.rng.uniform(lo, hi, size=(g.pick([1, 1, 2, 4]), 3)) + (g.rng.normal(size=3) * (hi - lo).max() if g.chance(0.2) else 0)
        dist = cKDTree(nb).query(P)[0]
        means = np.array([dist[q].mean() for q in parts])
        o = np.sort(means)
        if o[1] - o[0] < 1e-6 * s:
            continue
        w = int(np.argmin(means))
        ends = [np.argsort(P[q].dot(lo - hi)) for q in parts]
        rivals = [int(np.argmin(z)) for z in ([dist[q].min() for q in parts], [np.median(dist[q]) for q in parts], [dist[q].max() for q in parts], [dist[q].sum() for q in parts],
                                              [dist[q[:100]].mean() for q in parts], [dist[q[e[:len(q) // 3]]].mean() for q, e in zip(parts, ends)], [dist[q[e[-len(q) // 3:]]].mean() for q, e in zip(parts, ends)],
                                              [np.min(np.linalg.norm(P[q].mean(axis=0) - nb, axis=1)) for q in parts], [(dist[q] ** 2).mean() for q in parts])]
        score = sum(r != w for r in rivals) + 0.5 * g.rng.random()
        if best is None or score > best[0]:
            best = score, nb, w, means
    if best is None:
        raise Skip()
    score, nb, w, means = best
    c.input('v', m.v), c.input('f', m.f), c.input('neighborhood', nb)
    c.bucket(*kinds)
    c.bucket('%d rivals' % int(score))
    for nb_ in (nb, nb[:1]) if len(nb) > 1 else (nb,):
        dist = cKDTree(nb_).query(P)[0]
        means = np.array([dist[q].mean() for q in parts])
        o = np.sort(means)
        if o[1] - o[0] < 1e-6 * s:
            continue
        got = c.call(plane.mesh_xsections, m, neighborhood=nb_)
        c.check(len(got) == 1, '%d polylines', len(got))
        comp = check_component(c, x, tree, got[0], tol, 'polyline near the neighborhood')
        c.check(comp == int(np.argmin(means)), 'run %d at mean distance %g instead of run %d at %g', comp, means[comp], np.argmin(means), means.min())
