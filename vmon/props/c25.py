"""C25: Gram-Schmidt against an extended-precision reference in 1 to 40 dimensions, change of
basis against its defining equation and group laws, with the refusals."""
import numpy as np

from vmon.core import workload, Skip
from blmath.numerics.linalg import gram_schmidt as gs
from blmath.numerics.linalg.isomorphism import isomorphism, DimensionalityError, LinearDependenceError

EPS = np.finfo(float).eps


def rows(c, square=False):
    """Independent rows of mixed lengths; returns (V, condition of the normalized rows)."""
    g = c.g
    n = g.size(1, 40 if g.chance(0.1) else 8)
    k = n if square or g.chance(0.4) else g.integer(1, n)
    kind = g.pick(['gaussian', 'gaussian', 'near', 'integer', 'orthogonal', 'axes', 'triangular'])
    V = g.rng.normal(size=(k, n))
    if kind == 'near':
        V = V[:1] + V * g.pick([0.1, 0.03])
    elif kind == 'integer':
        V = g.rng.integers(-5, 6, size=(k, n)).astype(float)
    elif kind == 'orthogonal':
        V = np.linalg.qr(V.T)[0].T[:k]
    elif kind == 'axes':
        V = np.eye(n)[g.rng.permutation(n)[:k]] * g.pick([1, -1])
    elif kind == 'triangular':
        V = np.tril(g.rng.uniform(0.5, 1.5, size=(k, n)))
    if kind != 'integer' and g.chance(0.4):
        e = g.pick([5, 5, 5, 20])
        V = V * (10.0 ** g.rng.integers(-e, e + 1, size=k))[:, None]
    N = np.sqrt((V ** 2).sum(axis=1))
    if not np.all(N > 0):
        raise Skip
    if kind != 'integer' and g.chance(0.15):  # all but of unit length
        V = V / N[:, None] * (1 + g.rng.normal(size=(k, 1)) * 10.0 ** g.rng.uniform(-14, -2, size=(k, 1)))
        N = np.sqrt((V ** 2).sum(axis=1))
    s = np.linalg.svd(V / N[:, None], compute_uv=False)
    if not s[-1] > 1e-3 * s[0]:
        raise Skip
    return V, s[0] / s[-1], kind


def reference(V):
    out = []
    for v in V.astype(np.longdouble):
        w = v.copy()
        for _ in range(2):  # twice is enough
            for u in out:
                w = w - (u * w).sum() / (u * u).sum() * u
        out.append(w)
    return np.array(out)


def given(c, V, kind):
    g = c.g
    if kind == 'integer' and g.chance(0.6):
        V = V.astype(g.pick(['i8', 'i4']))
    form = g.pick(['array', 'layout', 'readonly', 'rows'])
    if form == 'layout':
        V = g.layout(V)
    elif form == 'readonly':
        V = V.copy()
        V.flags.writeable = False
    elif form == 'rows':
        return [r.copy() for r in V], form
    return V, form + ' ' + np.asarray(V).dtype.kind


@workload(quick=4000)
def orthogonal(c):
    V, cond, kind = rows(c)
    c.input('V', V)
    k, n = V.shape
    v, form = given(c, V, kind)
    c.bucket(kind, form, '%d of %d' % (k, n) if n < 4 else 'square' if k == n else 'fewer rows')
    got = c.call(gs.orthogonalize, v)
    c.equal(np.asarray(v), V, 'the rows after')
    lens = np.sqrt((V ** 2).sum(axis=1))
    tol = 60 * EPS * cond ** 2 * (k + n)
    c.check(got.shape == (k, n), 'shape %s', np.shape(got))
    c.equal(np.asarray(got[0], float), V[0], 'first row')
    c.close(got, reference(V), tol * lens[:, None], 'orthogonalized rows')
    L = np.sqrt((got.astype(np.longdouble) ** 2).sum(axis=1))
    G = np.dot(got.astype(np.longdouble) / L[:, None], (got / L[:, None]).T.astype(np.longdouble))
    c.close(G, np.eye(k), tol * 10, 'Gram matrix of the directions')


@workload(quick=4000)
def orthonormal(c):
    g = c.g
    V, cond, kind = rows(c)
    k, n = V.shape
    v, form = given(c, V, kind)
    which = g.pick(['all', 'explicit all', 'some', 'some', 'none', 'one', 'negative', 'none given'])
    idx = {'all': None, 'none given': None, 'explicit all': list(range(k)), 'some': g.rng.permutation(k)[:g.integer(0, k)].tolist(), 'none': [],
           'one': [g.integer(0, k - 1)], 'negative': [-1]}[which]
    if idx is not None:
        idx = g.pick([list, tuple, lambda x: np.array(x, dtype=int)])(idx)
    c.input('V', V), c.input('indices', None if idx is None else list(idx))
    c.bucket(which, form, kind)
    keep = None if idx is None else list(idx)
    if which == 'all':
        got = c.call(gs.orthonormalize, v)
    else:
        got = c.call(gs.orthonormalize, v, idx) if g.chance(0.5) else c.call(gs.orthonormalize, v, indices=idx)
    c.equal(np.asarray(v), V, 'the rows after')
    c.check(keep is None or list(idx) == keep, 'the index list was changed')
    lens = np.sqrt((V ** 2).sum(axis=1))
    tol = 60 * EPS * cond ** 2 * (k + n)
    want = reference(V)
    unit = np.zeros(k, bool)
    if idx is None:
        unit[:] = True
    else:
        for i in keep:
            unit[i] = True
    wl = np.sqrt((want ** 2).sum(axis=1))
    want = np.where(unit[:, None], want / wl[:, None], want)
    c.close(got, want, np.where(unit, tol * lens / wl.astype(float), tol * lens)[:, None], 'rows')
    L = np.sqrt((got.astype(np.longdouble) ** 2).sum(axis=1))
    c.close(L[unit], np.ones(int(unit.sum())), 8 * EPS * (n + 2), 'length of the requested rows')


def basis(c, n):
    g = c.g
    for _ in range(20):
        B = g.rng.normal(size=(n, n)) * g.pick([1, 1, g.scale(1e-3, 1e3)])
        kind = g.pick(['gaussian', 'rotation', 'integer', 'permutation', 'scaled', 'shear'])
        if kind == 'rotation':
            B = np.linalg.qr(B)[0]
        elif kind == 'integer':
            B = g.rng.integers(-4, 5, size=(n, n)).astype(float)
        elif kind == 'shear':  # determinant one, close to a rotation or not
            B = np.eye(n) + np.tril(g.rng.normal(size=(n, n)), -1) * g.pick([1., 10.0 ** -g.integer(1, 9)])
            if g.chance(0.5):
                B = B.dot(np.linalg.qr(g.rng.normal(size=(n, n)))[0])
        elif kind == 'permutation':
            B = np.eye(n)[g.rng.permutation(n)]
        elif kind == 'scaled':
            B = B * (10.0 ** g.rng.integers(-2, 3, size=n))[:, None]
        s = np.linalg.svd(B, compute_uv=False)
        if s[-1] > 1e-6 * s[0] > 0 and np.isfinite(s).all() and n * np.log10(s[-1]) > -250:
            return B, s[0] / s[-1]
    raise Skip


def frame(g, B):
    return g.pick([lambda: B, lambda: B.tolist(), lambda: [r for r in B], lambda: g.layout(B), lambda: tuple(map(tuple, B))])()


@workload(quick=3000)
def change_of_basis(c):
    g = c.g
    n = g.size(1, 25 if g.chance(0.1) else 6)
    (A, ka), (B, kb), (D, kd) = basis(c, n), basis(c, n), basis(c, n)
    c.input('A', A), c.input('B', B), c.input('D', D)
    c.bucket('%d-d' % n if n < 7 else 'more')
    fa, fb = frame(g, A), frame(g, B)
    R = c.call(isomorphism, fa, fb)
    c.equal(np.asarray(fa), A, 'first basis after'), c.equal(np.asarray(fb), B, 'second basis after')
    R = np.asarray(R)
    c.check(R.shape == (n, n), 'shape %s', R.shape)
    # the vector with coordinates x in the second basis has coordinates Rx in the first
    LA, LB = A.T.astype(np.longdouble), B.T.astype(np.longdouble)
    ra, rb = np.abs(A).max(), np.abs(B).max()
    tol = 40 * EPS * n * n * ka
    c.close(np.dot(LA, R), LB, tol * rb, 'coordinates re-expressed')
    x = g.rng.normal(size=n)
    c.close(np.dot(LA, np.dot(R.astype(np.longdouble), x)), np.dot(LB, x), tol * rb * np.abs(x).sum() * 2, 'a vector re-expressed')
    S = np.asarray(c.call(isomorphism, frame(g, B), frame(g, A)))
    sr, ss = np.abs(R).max(), np.abs(S).max()
    c.close(np.dot(R.astype(np.longdouble), S), np.eye(n), tol * kb * sr * ss + tol * kb, 'there and back')
    T, U = np.asarray(c.call(isomorphism, frame(g, B), frame(g, D))), np.asarray(c.call(isomorphism, frame(g, A), frame(g, D)))
    c.close(np.dot(R.astype(np.longdouble), T), U, tol * kb * kd * (sr * np.abs(T).max() + np.abs(U).max()), 'composed')
    I = np.asarray(c.call(isomorphism, frame(g, A), frame(g, A)))
    c.close(I, np.eye(n), 40 * EPS * n * n * ka, 'a basis against itself')
    if g.chance(0.3):
        E = np.asarray(c.call(isomorphism, np.eye(n), frame(g, B)))
        c.close(E, B.T, 40 * EPS * rb * n, 'from the standard basis')


@workload(quick=1200)
def refused(c):
    g = c.g
    n = g.size(2, 8)
    A, _ = basis(c, n)
    kind = g.pick(['length', 'zero row', 'zero column', 'repeated row', 'all zero', 'opposite row'])
    side = g.integer(0, 1)
    c.bucket(kind, 'first' if side == 0 else 'second')
    if kind == 'length':
        m = g.pick([n - 1, n + 1, n + 3, 1])
        if m == n:
            raise Skip
        B, _ = basis(c, m)
        err = DimensionalityError
    else:
        B = basis(c, n)[0].copy()
        i = g.integer(0, n - 1)
        if kind == 'zero row':
            B[i] = 0
        elif kind == 'zero column':
            B[:, i] = 0
        elif kind == 'all zero':
            B[:] = 0
        else:
            B = g.rng.integers(-3, 4, size=(2, n)).astype(float)
            B = B[:2] if n == 2 else np.concatenate([B, np.eye(n)[2:]])
            B[0] = B[1] * (1 if kind == 'repeated row' else -1)
        err = LinearDependenceError
    pair = (frame(g, A), frame(g, B))
    if side == 0:
        pair = pair[::-1]
    c.input('A', A), c.input('B', B), c.input('side', side)
    e = c.raises(err, isomorphism, *pair)
    c.check(isinstance(e, ValueError), 'not a ValueError')


@workload(quick=1500)
def mixed_lengths(c):
    """Basis vectors of very different lengths: making a basis vector longer by a power of two
    divides the matching coordinate by it, exactly but for rounding."""
    g = c.g
    n = g.size(1, 6)
    (A, ka), (B, kb) = basis(c, n), basis(c, n)
    span = g.pick([8, 30, 45, 60])
    if n * (span + 20) > 900:
        span = 8
    d, e = (2.0 ** g.rng.integers(-span, span + 1, size=n) for _ in range(2))
    if g.chance(0.3):
        e = np.ones(n)
    c.input('A', A), c.input('B', B), c.input('d', d), c.input('e', e)
    c.bucket('%d-d' % n, 'lengths up to 2^%d' % span)
    R = np.asarray(c.call(isomorphism, frame(g, A), frame(g, B)))
    S = np.asarray(c.call(isomorphism, frame(g, A * d[:, None]), frame(g, B * e[:, None])))
    back = S * d[:, None] / e[None, :]
    # rounding in the coordinate i is relative to the lengths along the basis vectors, not to each other
    # the vectors' own unequal lengths within A count as conditioning
    tol = 200 * EPS * n * n * ka * np.abs(R).max()
    c.close(back, R, tol, 'coordinates for longer basis vectors')
    LA, LB = (A * d[:, None]).T.astype(np.longdouble), (B * e[:, None]).T.astype(np.longdouble)
    c.close(np.dot(LA, S.astype(np.longdouble)) / e, LB / e, 200 * EPS * n * n * ka * np.abs(B).max(), 'the vectors re-expressed')
