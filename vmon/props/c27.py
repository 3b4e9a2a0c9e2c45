"""C27: differentiable mesh normals against extended-precision geometry and against Jacobians
written out from the textbook derivatives (themselves spot-checked by central differences),
on manifold and random meshes, before and after series of changes to vertices and faces."""
import numpy as np
import scipy.sparse as sp

from vmon.core import workload, Skip
from vmon import shim, meshes

shim.load_chumpy()
import chumpy as ch  # noqa: E402
from blmath.optimization.objectives import normals as N  # noqa: E402

EPS = np.finfo(float).eps


def triangles(c, cover=False):
    """(v, f): no degenerate face."""
    g = c.g
    if g.chance(0.5):
        m, _ = meshes.mesh(c)
        v, f = m.v, m.f
    else:
        n = g.size(3, 200 if g.chance(0.1) else 40)
        v = g.rng.normal(size=(n, 3)) * g.scale(1e-3, 1e3) + g.rng.normal(size=3) * g.pick([0, 0, 10])
        f = np.array([g.rng.permutation(n)[:3] for _ in range(g.size(1, 60))])
    f = f.astype(g.pick(['i8', 'i8', 'i4', 'u4', 'u8'] + ['i2', 'u2'] + (['u1'] if len(v) < 256 else []) + (['i1'] if len(v) < 128 else [])))
    if g.chance(0.2):
        f = np.asfortranarray(f)
    f = f[:150]
    used = np.zeros(len(v), bool)
    used[np.asarray(f, int)] = True
    if cover or len(v) > 250:
        k = np.cumsum(used) - 1
        v, f = v[used], k[np.asarray(f, int)].astype(f.dtype)
    if not sound(v, f):
        raise Skip
    return v.copy(), f


def sound(v, f):
    a, b, _, x = geometry(v, f)
    la, lb, lx = [np.sqrt((t ** 2).sum(1)) for t in (a, b, x)]
    return len(f) > 0 and bool(np.all(lx > 1e-3 * la * lb)) and bool(min(la.min(), lb.min()) > 1e-6 * np.abs(v).max())


def geometry(v, f):
    v, f = v.astype(np.longdouble), np.asarray(f, int)
    a, b = v[f[:, 1]] - v[f[:, 0]], v[f[:, 2]] - v[f[:, 0]]
    x = np.stack([a[:, 1] * b[:, 2] - a[:, 2] * b[:, 1], a[:, 2] * b[:, 0] - a[:, 0] * b[:, 2], a[:, 0] * b[:, 1] - a[:, 1] * b[:, 0]], 1)
    return a, b, v, x


def skew(t):
    m = np.zeros((3, 3), np.longdouble)
    m[0, 1], m[0, 2], m[1, 0], m[1, 2], m[2, 0], m[2, 1] = -t[2], t[1], t[2], -t[0], -t[1], t[0]
    return m


def edge_jacobian(f, n, plus, minus):
    J = np.zeros((3 * len(f), 3 * n), np.longdouble)
    for t, face in enumerate(np.asarray(f, int)):
        for k in range(3):
            J[3 * t + k, 3 * face[plus] + k] += 1
            J[3 * t + k, 3 * face[minus] + k] -= 1
    return J


def cross_jacobians(a, b):
    """d(a x b)/da and /db: blocks -[b] and [a]."""
    n = len(a)
    Ja, Jb = np.zeros((3 * n, 3 * n), np.longdouble), np.zeros((3 * n, 3 * n), np.longdouble)
    for t in range(n):
        s = slice(3 * t, 3 * t + 3)
        Ja[s, s], Jb[s, s] = -skew(b[t]), skew(a[t])
    return Ja, Jb


def unit_jacobian(x):
    n = len(x)
    J = np.zeros((3 * n, 3 * n), np.longdouble)
    for t in range(n):
        l = np.sqrt((x[t] ** 2).sum())
        u = x[t] / l
        J[3 * t:3 * t + 3, 3 * t:3 * t + 3] = (np.eye(3) - np.outer(u, u)) / l
    return J


def scaled_jacobian(v, f):
    a, b, _, _ = geometry(v, f)
    Ja, Jb = cross_jacobians(a, b)
    return np.dot(Ja, edge_jacobian(f, len(v), 1, 0)) + np.dot(Jb, edge_jacobian(f, len(v), 2, 0))


def dense(J):
    return J.toarray() if sp.issparse(J) else np.asarray(J)


def bump(c, v, how=None):
    """Another position for the same vertices."""
    g = c.g
    for _ in range(20):
        w = g.pick([lambda: v + g.rng.normal(size=v.shape) * np.abs(v).max() * g.pick([0.01, 0.3]), lambda: v * 2.0, lambda: v.dot(g.rotation().T), lambda: -v,
                    lambda: g.rng.normal(size=v.shape)])()
        yield w
    raise Skip


def positions(c, v):
    """The vertices as rows or as one long vector."""
    flat = c.g.chance(0.3)
    c.bucket('flat' if flat else 'rows')
    return v.ravel().copy() if flat else v.copy()


def update(c, cv, v, f):
    """Change the chumpy vertices in one of the ways open to a caller; returns the new positions."""
    g = c.g
    for w in bump(c, v):
        if sound(w, f):
            break
    how = g.pick(['all', 'x', 'part'])
    if how == 'part':
        i = g.integer(0, len(v) - 1)
        p = v.copy()
        p[i] = v[i] + g.rng.normal(size=3) * np.abs(v).max() * 0.1
        if not sound(p, f):
            how = 'all'
        else:
            if cv.ndim == 1:
                cv[3 * i:3 * i + 3] = p[i]
            else:
                cv[i] = p[i]
            c.bucket('one vertex moved')
            return p
    if how == 'x':
        cv.x = w.reshape(cv.shape).copy()
        c.bucket('vertices replaced')
    else:
        cv[:] = w.reshape(cv.shape)
        c.bucket('vertices overwritten')
    return w


def condition(v, f):
    a, b, V, x = geometry(v, f)
    la, lb, lx = [np.sqrt((t ** 2).sum(1)).astype(float) for t in (a, b, x)]
    big = np.abs(v).max()
    return la, lb, lx, 16 * EPS * (1 + big / la + big / lb) * la * lb  # absolute error of each cross product


def check_faces(c, v, f, scaled, unit, cv, jac):
    la, lb, lx, err = condition(v, f)
    a, b, V, x = geometry(v, f)
    got = c.get(scaled, 'r')
    c.check(got.shape == (3 * len(f),), 'scaled normals of shape %s', got.shape)
    c.close(got.reshape(-1, 3), x, err[:, None], 'scaled triangle normals')
    got = c.get(unit, 'r').reshape(-1, 3)
    c.close(got, x / lx[:, None], (4 * EPS + 2 * err / lx)[:, None], 'triangle normals')
    if jac:
        J = scaled_jacobian(v, f)
        big = float(np.abs(J).max())
        vb = np.abs(v).max()
        c.close(dense(c.call(scaled.dr_wrt, cv)), J, 32 * EPS * (big + vb), 'Jacobian of the scaled normals')
        Ju = np.dot(unit_jacobian(x), J)
        rel = (err / lx).max()
        c.close(dense(c.call(unit.dr_wrt, cv)), Ju, 64 * (EPS + rel) * float(np.abs(Ju).max() + (np.abs(J).max() + vb) / lx.min()), 'Jacobian of the normals')


@workload(quick=1200)
def faces(c):
    g = c.g
    v, f = triangles(c)
    c.input('v', v), c.input('f', f)
    cv = ch.array(positions(c, v))
    f0 = f.copy()
    src = cv
    scaled, unit = c.call(N.TriNormalsScaled, src, f), c.call(N.TriNormals, src, f)
    jac = len(f) * len(v) < 1500
    check_faces(c, v, f, scaled, unit, cv, jac)
    steps = g.integer(0, 3)
    for k in range(steps):
        v = update(c, cv, v, f)
        c.input('v%d' % k, v)
        check_faces(c, v, f, scaled, unit, cv, jac)
    if g.chance(0.2):
        got = c.call(N.TriNormalsScaled, v, f).r.reshape(-1, 3)
        c.close(got, geometry(v, f)[3], condition(v, f)[3][:, None], 'scaled normals of plain arrays')
    c.equal(f, f0, 'faces after')
    c.bucket('%d updates' % steps, str(f.dtype))


def check_vertices(c, v, f, vn, cv, normalized, jac):
    a, b, V, x = geometry(v, f)
    la, lb, lx, err = condition(v, f)
    n = len(v)
    fi = np.asarray(f, int)
    S = np.zeros((n, 3), np.longdouble)
    total, errs, count = np.zeros(n), np.zeros(n), np.zeros(n)
    for k in range(3):
        np.add.at(S, fi[:, k], x)
        np.add.at(total, fi[:, k], lx)
        np.add.at(errs, fi[:, k], err)
        np.add.at(count, fi[:, k], 1)
    ls = np.sqrt((S ** 2).sum(1)).astype(float)
    fine = (count > 0) & (ls > 1e-3 * total)
    errs = errs + 8 * EPS * total * (1 + count)
    got = c.get(vn, 'r')
    c.check(got.shape == (n, 3), 'vertex normals of shape %s', got.shape)
    with np.errstate(all='ignore'):
        u = S / ls[:, None]
        if normalized:
            want, tol = u, 4 * EPS + 2 * errs / ls
        else:
            size = np.sqrt(ls / count)
            want, tol = u * size[:, None], (8 * EPS + 3 * errs / ls) * size
    c.close(got[fine], want[fine], tol[fine][:, None], 'vertex normals')
    if normalized:
        c.equal(got[count == 0], np.zeros((int((count == 0).sum()), 3)), 'normals of vertices without faces')
    if not jac or not fine.any():
        return
    J = scaled_jacobian(v, f)
    JS = np.zeros((3 * n, 3 * n), np.longdouble)
    for t, face in enumerate(fi):
        for i in face:
            JS[3 * i:3 * i + 3] += J[3 * t:3 * t + 3]
    got = dense(c.call(vn.dr_wrt, cv))
    c.check(got.shape == (3 * n, 3 * n), 'Jacobian of shape %s', got.shape)
    vb = np.abs(v).max()
    for i in np.nonzero(fine)[0]:
        s = slice(3 * i, 3 * i + 3)
        ui = u[i]
        if normalized:
            P = (np.eye(3) - np.outer(ui, ui)) / ls[i]
        else:
            # m / sqrt|m| with m = S / count
            m = ls[i] / count[i]
            P = (np.eye(3) - 0.5 * np.outer(ui, ui)) / np.sqrt(m) / count[i]
        W = np.dot(P, JS[s])
        scale = float(np.abs(P).max()) * float(np.abs(JS[s]).max() + vb * count[i])
        c.close(got[s], W, 100 * (EPS * (1 + count[i]) + errs[i] / ls[i]) * scale, 'Jacobian of the vertex normals')


@workload(quick=900)
def vertices(c):
    g = c.g
    normalized = g.pick([None, True, False])
    v, f = triangles(c, cover=normalized is False)
    c.input('v', v), c.input('f', f), c.input('normalized', normalized)
    cv = ch.array(v.copy())
    kw = {} if normalized is None else {'normalized': normalized}
    vn = c.call(N.VertNormals, cv, f, **kw) if g.chance(0.4) and normalized is None else c.call(N.VertNormals, v=cv, f=f, **kw)
    norm = normalized is not False
    jac = len(f) * len(v) < 1200
    check_vertices(c, v, f, vn, cv, norm, jac)
    steps = g.integer(0, 3)
    for k in range(steps):
        what = g.pick(['move', 'move', 'swap', 'faces', 'mesh'])
        if what == 'move':
            v = update(c, cv, v, f)
        elif what == 'swap':
            for w in bump(c, v):
                if sound(w, f):
                    break
            v = w
            cv = ch.array(v.copy())
            vn.v = cv
            c.bucket('vertex object replaced')
        elif what == 'faces':
            nf = f[g.rng.permutation(len(f))]
            if norm and g.chance(0.6):
                nf = nf[:g.integer(1, len(nf))]
            if g.chance(0.4):
                nf = nf[:, [1, 0, 2]]
            f = np.ascontiguousarray(nf)
            if not sound(v, f):
                raise Skip
            vn.f = f
            c.bucket('faces replaced')
        else:
            v, f = triangles(c, cover=True)
            if g.chance(0.5):
                cv = ch.array(v.copy())
                vn.set(v=cv, f=f) if hasattr(vn, 'set') else None
                c.bucket('mesh replaced')
            else:
                cv = ch.array(v.copy())
                vn = c.call(N.VertNormals, v=cv, f=f, **kw)
        jac = len(f) * len(v) < 1200
        c.input('v%d' % k, v), c.input('f%d' % k, f)
        check_vertices(c, v, f, vn, cv, norm, jac)
    c.bucket('%d updates' % steps, 'normalized=%s' % normalized)


@workload(quick=2000)
def parts(c):
    """Edges, cross products and normalizations on their own."""
    g = c.g
    n = g.size(1, 25)
    s = g.scale(1e-3, 1e3)
    A, B = g.rng.normal(size=(n, 3)) * s, g.rng.normal(size=(n, 3))
    c.input('A', A), c.input('B', B)
    shape = g.pick([(n, 3), (3 * n,)])
    ca, cb = ch.array(A.reshape(shape)), ch.array(B.reshape(shape))
    if g.chance(0.5):
        x = c.call(N.CrossProduct, ca, cb)
    else:
        x = c.call(N.CrossProduct, a=ca, b=cb)
    u = c.call(N.NormalizedNx3, ca) if g.chance(0.5) else c.call(N.NormalizedNx3, v=ca)
    for k in range(g.integer(1, 4)):
        a, b = A.astype(np.longdouble), B.astype(np.longdouble)
        want = np.stack([a[:, 1] * b[:, 2] - a[:, 2] * b[:, 1], a[:, 2] * b[:, 0] - a[:, 0] * b[:, 2], a[:, 0] * b[:, 1] - a[:, 1] * b[:, 0]], 1)
        la, lb = np.sqrt((a ** 2).sum(1)), np.sqrt((b ** 2).sum(1))
        first = g.chance(0.5)
        Ja, Jb = cross_jacobians(a, b)
        if not first:  # derivatives asked for before the value
            c.close(dense(c.call(x.dr_wrt, ca)), Ja, 0, 'd(a x b)/da'), c.close(dense(c.call(x.dr_wrt, cb)), Jb, 0, 'd(a x b)/db')
        c.close(c.get(x, 'r').reshape(-1, 3), want, (8 * EPS * la * lb)[:, None], 'cross product')
        if first:
            c.close(dense(c.call(x.dr_wrt, ca)), Ja, 0, 'd(a x b)/da'), c.close(dense(c.call(x.dr_wrt, cb)), Jb, 0, 'd(a x b)/db')
        got = c.get(u, 'r')
        c.check(got.shape == shape, 'normalized to shape %s', got.shape)
        c.close(got.reshape(-1, 3), a / la[:, None], 8 * EPS, 'normalized')
        c.close(dense(c.call(u.dr_wrt, ca)), unit_jacobian(a), 32 * EPS / float(la.min()), 'Jacobian of the normalization')
        c.check(u.dr_wrt(cb) is None or not np.any(dense(u.dr_wrt(cb))), 'derivative with respect to something unrelated')
        if g.chance(0.3):  # one central difference, to keep the reference honest
            i, h = g.integer(0, 3 * n - 1), 1e-6 * float(la.min())
            keep = A.copy()
            vals = []
            for d in (h, -h):
                P = keep.ravel().copy()
                P[i] += d
                ca[:] = P.reshape(shape)
                vals.append((x.r.copy(), u.r.copy().ravel()))
            ca[:] = keep.reshape(shape)
            c.close((vals[0][0] - vals[1][0]) / (2 * h), Ja[:, i], 1e-6 * float(lb.max()) + 1e-9 * float(la.max() * lb.max()) / h * 1e-6, 'central difference of the cross product')
            c.close((vals[0][1] - vals[1][1]) / (2 * h), unit_jacobian(a)[:, i], 1e-6 / float(la.min()) + 1e-15 / h, 'central difference of the normalization')
        which = g.pick(['a', 'b', 'both', 'one row'])
        if which in ('a', 'both'):
            A = g.rng.normal(size=(n, 3)) * s
            ca[:] = A.reshape(shape)
        if which in ('b', 'both'):
            B = g.rng.normal(size=(n, 3)) * s
            cb[:] = B.reshape(shape)
        if which == 'one row':
            i = g.integer(0, n - 1)
            A = A.copy()
            A[i] = g.rng.normal(size=3)
            ca[:] = A.reshape(shape)
        c.bucket('changed ' + which)
        if g.chance(0.25):  # other operands altogether, of another length
            n = g.size(1, 25)
            A, B = g.rng.normal(size=(n, 3)) * s, g.rng.normal(size=(n, 3))
            c.input('A%d' % k, A), c.input('B%d' % k, B)
            shape = (n, 3) if len(shape) == 2 else (3 * n,)
            ca, cb = ch.array(A.reshape(shape)), ch.array(B.reshape(shape))
            x.a, x.b, u.v = ca, cb, ca
            c.bucket('operands replaced')


@workload(quick=1200)
def edges(c):
    g = c.g
    v, f = triangles(c)
    plus, minus = g.pick([(1, 0), (2, 0), (2, 1), (0, 1), (0, 2), (1, 2)])
    c.input('v', v), c.input('f', f), c.input('corners', (plus, minus))
    cv = ch.array(positions(c, v))
    e = c.call(N.TriEdges, f, plus, minus, cv) if g.chance(0.6) else c.call(N.TriEdges, f=f, cplus=plus, cminus=minus, v=cv)
    for k in range(g.integer(1, 3)):
        fi = np.asarray(f, int)
        want = v[fi[:, plus]] - v[fi[:, minus]]
        c.equal(c.get(e, 'r'), want.ravel(), 'edges')
        if len(f) * len(v) < 1500:
            c.equal(dense(c.call(e.dr_wrt, cv)), edge_jacobian(f, len(v), plus, minus).astype(float), 'Jacobian of the edges')
        v = update(c, cv, v, f)
    c.bucket('corner %d to %d' % (minus, plus), str(f.dtype))


@workload(quick=40)
def large(c):
    """Meshes of up to 100000 vertices: a patch of faces scattered over the index range."""
    g = c.g
    n = g.pick([g.size(200, 300), g.size(5000, 40000), g.size(10000, 100000)])
    m = g.integer(1, 40)
    pool = np.unique(np.concatenate([g.rng.integers(0, n, 3 * m), [n - 1, n - 2, 0], [k for k in (127, 128, 255, 256, 10922, 10923, 21845, 21846, 32767, 32768, 65535, 65536) if k < n]]))
    f = np.array([g.rng.permutation(pool)[:3] for _ in range(m)])
    kinds = ['i8', 'i4', 'u4', 'u8'] + [t for t, k in (('i2', 2 ** 15), ('u2', 2 ** 16)) for _ in range(3) if n <= k]
    f = f.astype(g.pick(kinds))
    v = g.rng.normal(size=(n, 3)) * g.scale(1e-2, 1e2)
    if not sound(v, f):
        raise Skip
    c.input('v', v), c.input('f', f)
    c.bucket(str(f.dtype), '%d..' % 10 ** int(np.log10(n)))
    cv = ch.array(v.copy())
    used, small = np.unique(np.asarray(f, int), return_inverse=True)
    small = small.reshape(-1, 3)
    cols = (3 * used[:, None] + np.arange(3)).ravel()
    J = scaled_jacobian(v[used], small)
    vb = np.abs(v).max()
    tol = 32 * EPS * (float(np.abs(J).max()) + vb)

    def columns(M, rows, what):
        c.check(M.shape == (rows, 3 * n), '%s of shape %s', what, M.shape)
        M = sp.coo_matrix(M) if not sp.issparse(M) else M.tocoo()
        outside = ~np.isin(M.col, cols) & (M.data != 0)
        c.check(not outside.any(), '%s: derivatives with respect to vertices of no face', what)
        return np.asarray(M.tocsc()[:, cols].todense())
    plus, minus = g.pick([(1, 0), (2, 0), (2, 1)])
    e = c.call(N.TriEdges, f, plus, minus, cv)
    fi = np.asarray(f, int)
    c.equal(c.get(e, 'r'), (v[fi[:, plus]] - v[fi[:, minus]]).ravel(), 'edges')
    c.equal(columns(c.call(e.dr_wrt, cv), 3 * m, 'Jacobian of the edges'), edge_jacobian(small, len(used), plus, minus).astype(float), 'Jacobian of the edges')
    scaled, unit = c.call(N.TriNormalsScaled, cv, f), c.call(N.TriNormals, cv, f)
    check_faces(c, v, f, scaled, unit, cv, False)
    c.close(columns(c.call(scaled.dr_wrt, cv), 3 * m, 'Jacobian of the scaled normals'), J, tol, 'Jacobian of the scaled normals')
    vn = c.call(N.VertNormals, cv, f)
    check_vertices(c, v, f, vn, cv, True, False)
    w = update(c, cv, v, f)
    check_vertices(c, w, f, vn, cv, True, False)


@workload(quick=200)
def many(c):
    """Thousands of faces: every derivative, along random directions of all vertices together."""
    g = c.g
    if g.chance(0.5):
        a, b = g.size(3, 60), g.size(3, 60)
        y, x = np.mgrid[:a + 1, :b + 1]
        v = np.stack([x.ravel(), y.ravel(), 0.3 * g.rng.normal(size=x.size)], 1) + g.rng.uniform(-.2, .2, (x.size, 1))
        q = (np.arange(a)[:, None] * (b + 1) + np.arange(b)).ravel()
        f = np.concatenate([np.stack([q, q + 1, q + b + 2], 1), np.stack([q, q + b + 2, q + b + 1], 1)])
        kind = 'grid'
    else:
        n = g.size(50, 4000)
        v = g.rng.normal(size=(n, 3))
        f = np.array([g.rng.choice(n, 3, replace=False) for _ in range(g.size(300, 6000))])
        kind = 'soup'
    v = v * g.scale(1e-2, 1e2)
    x = geometry(v, f)
    ls = [np.sqrt((t ** 2).sum(1)) for t in (x[0], x[1], x[3])]
    f = f[np.asarray(ls[2] > 1e-3 * ls[0] * ls[1])]
    if g.chance(0.5):
        f = f[g.rng.permutation(len(f))]
    used = np.unique(f)  # every vertex has a face
    v, f = v[used], np.searchsorted(used, f)
    if not len(f) or not sound(v, f):
        raise Skip
    f = f.astype(g.pick(['i8', 'i4', 'u4', 'u8'] + (['i2'] if len(v) < 2 ** 15 else []) + (['u2'] if len(v) < 2 ** 16 else [])))
    c.input('v', v), c.input('f', f)
    c.bucket(kind, '%d.. faces' % 10 ** int(np.log10(len(f))), str(f.dtype))
    cv = ch.array(v.copy())
    fi = np.asarray(f, int)
    m, n = len(f), len(v)
    terms = dict(e=c.call(N.TriEdges, f, 1, 0, cv), scaled=c.call(N.TriNormalsScaled, cv, f), unit=c.call(N.TriNormals, cv, f), vn=c.call(N.VertNormals, cv, f),
                 loose=c.call(N.VertNormals, v=cv, f=f, normalized=False))
    for again in range(g.pick([1, 1, 2])):
        if again:
            v = update(c, cv, v, f)
            c.input('moved', v)
        a, b, V, x = geometry(v, f)
        la, lb, lx, err = condition(v, f)
        check_faces(c, v, f, terms['scaled'], terms['unit'], cv, False)
        check_vertices(c, v, f, terms['vn'], cv, True, False)
        J = {k: c.call(t.dr_wrt, cv) for k, t in terms.items()}
        for k in J:
            c.check(J[k].shape == ((3 * n if k in ('vn', 'loose') else 3 * m), 3 * n), 'Jacobian %s of shape %s', k, J[k].shape)
        for _ in range(2):
            dv = g.rng.normal(size=(n, 3))

            def got(k):
                return np.asarray(J[k].dot(dv.ravel())).reshape(-1, 3)
            D = dv.astype(np.longdouble)
            da, db = D[fi[:, 1]] - D[fi[:, 0]], D[fi[:, 2]] - D[fi[:, 0]]
            big = float(np.abs(dv).max())
            vb = float(np.abs(v).max())
            c.close(got('e'), da, 16 * EPS * big, 'edges: derivative along a direction')
            dx = np.cross(da, b) + np.cross(a, db)
            tx = (64 * EPS * (vb + la + lb) * big)
            c.close(got('scaled'), dx, tx[:, None], 'scaled normals: derivative along a direction')
            l = np.asarray(lx)
            u = x / l[:, None]
            du = (dx - u * (u * dx).sum(1)[:, None]) / l[:, None]
            size = np.sqrt((dx ** 2).sum(1)).astype(float) + 4 * (la + lb) * big
            c.close(got('unit'), du, (64 * (EPS + err / l) * size / l)[:, None], 'normals: derivative along a direction')
            S, dS = np.zeros((n, 3), np.longdouble), np.zeros((n, 3), np.longdouble)
            E, total, errs, count = np.zeros(n), np.zeros(n), np.zeros(n), np.zeros(n)
            for k in range(3):
                np.add.at(S, fi[:, k], x)
                np.add.at(dS, fi[:, k], dx)
                np.add.at(E, fi[:, k], size)
                np.add.at(total, fi[:, k], l)
                np.add.at(errs, fi[:, k], err)
                np.add.at(count, fi[:, k], 1)
            L = np.sqrt((S ** 2).sum(1)).astype(float)
            fine = L > 1e-3 * total
            with np.errstate(all='ignore'):
                w = S / L[:, None]
                dw = (dS - w * (w * dS).sum(1)[:, None]) / L[:, None]
                tol = 100 * (EPS * (1 + count) * total / L + errs / L) * E / L
                c.close(got('vn')[fine], dw[fine], tol[fine][:, None], 'vertex normals: derivative along a direction')
                M = L / count
                dl = (dS - .5 * w * (w * dS).sum(1)[:, None]) / count[:, None] / np.sqrt(M)[:, None]
                tol = 100 * (EPS * (1 + count) * total / L + errs / L) * E / count / np.sqrt(M)
                c.close(got('loose')[fine], dl[fine], tol[fine][:, None], 'unnormalized vertex normals: derivative along a direction')
