"""C23: sparse Cholesky on generated matrices of many patterns, sizes, types and storage forms;
the factors are multiplied out in extended precision, definiteness is known by construction."""
import numpy as np
import scipy.linalg
import scipy.sparse as sp

from vmon.core import workload, Skip
from blmath.numerics.linalg.lchol import lchol

NEEDS_CHOLMOD = True
EPS = np.finfo(float).eps


def edges(g, n, kind):
    """Off-diagonal positions (i > j)."""
    if kind == 'diagonal' or n == 1:
        return []
    if kind == 'dense':
        return [(i, j) for i in range(n) for j in range(i)]
    if kind == 'band':
        w = g.integer(1, max(1, min(12, n - 1)))
        return [(i, j) for i in range(n) for j in range(max(0, i - w), i)]
    if kind == 'arrow':
        hub = g.pick([0, n - 1, g.integer(0, n - 1)])
        return [(max(hub, k), min(hub, k)) for k in range(n) if k != hub]
    if kind == 'grid':
        w = max(1, int(np.sqrt(n)))
        return [(i, i - 1) for i in range(1, n) if i % w] + [(i, i - w) for i in range(w, n)]
    if kind == 'blocks':
        b = g.integer(1, min(n, 40))
        return [(i, j) for i in range(n) for j in range(i) if i // b == j // b]
    if kind == 'tree':
        return [(i, g.integer(0, i - 1)) for i in range(1, n)]
    m = int(n * g.pick([0.3, 1, 2, 5]))
    out = set()
    for _ in range(m):
        i, j = g.integer(0, n - 1), g.integer(0, n - 1)
        if i != j:
            out.add((max(i, j), min(i, j)))
    return sorted(out)


def symmetric(c):
    """A symmetric dense matrix with a chosen sparsity pattern, not yet definite."""
    g = c.g
    kind = g.pick(['diagonal', 'dense', 'band', 'arrow', 'grid', 'blocks', 'tree', 'random', 'random', 'random'])
    hi = 400 if g.chance(0.04) else 90 if g.chance(0.3) else 25
    n = g.size(1, min(hi, 220) if kind == 'dense' else hi)
    A = np.zeros((n, n))
    es = edges(g, n, kind)
    vals = g.rng.normal(size=len(es))
    if g.chance(0.3):
        vals = g.rng.integers(-3, 4, size=len(es)).astype(float)
        vals[vals == 0] = 1
    for (i, j), v in zip(es, vals):
        A[i, j] = A[j, i] = v
    if n > 1 and g.chance(0.5):
        p = g.rng.permutation(n)
        A = A[np.ix_(p, p)]
    return A, kind


def definite(c):
    g = c.g
    A, kind = symmetric(c)
    n = len(A)
    how = g.pick(['dominant', 'dominant', 'shifted', 'gram'])
    if how == 'gram':
        L = np.tril(A) + np.diag(g.rng.uniform(0.5, 2, size=n))
        A = np.dot(L, L.T) + 1e-2 * np.eye(n) * max(1, np.abs(A).max())
        A = (A + A.T) / 2
    elif how == 'dominant':
        A[np.diag_indices(n)] = np.abs(A).sum(axis=1) + g.rng.uniform(0.1, 2, size=n)
    else:
        lo = scipy.linalg.eigvalsh(A)[0] if n else 0
        A[np.diag_indices(n)] += -min(lo, 0) * 1.01 + g.rng.uniform(0.01, 1)
    if g.chance(0.25):
        d = 2.0 ** g.rng.integers(-12, 13, size=n)
        A = d[:, None] * A * d[None, :]
    if g.chance(0.2):
        A = A * 2.0 ** g.integer(-60, 60)
    return A, kind + ' ' + how


def stored(c, A, dtype=None):
    """A as a sparse matrix in one of many storage forms."""
    g = c.g
    form = g.pick(['csc', 'csc', 'csc', 'csr', 'csc_array', 'csr_array'])
    cls = {'csc': sp.csc_matrix, 'csr': sp.csr_matrix, 'csc_array': sp.csc_array, 'csr_array': sp.csr_array}[form]
    M = cls(A if dtype is None else A.astype(dtype))
    other = g.pick(['coo', 'bsr', 'lil', 'dok', 'dia']) if g.chance(0.06) else None
    if other:
        c.bucket(other)
        M = M.asformat(other)
        if other == 'bsr' and len(A) > 1:
            b = [d for d in range(1, min(len(A), 8) + 1) if len(A) % d == 0][-1]
            M = sp.bsr_matrix(M, blocksize=(b, b))
        return M
    order = g.pick(['sorted', 'sorted', 'sorted', 'spare room', 'unsorted', 'duplicates', 'explicit zeros', 'long indices', 'strided data', 'frozen'])
    if order in ('unsorted', 'duplicates', 'explicit zeros'):
        coo = M.tocoo()
        i, j, v = coo.row, coo.col, coo.data
        if order == 'duplicates' and v.dtype.kind == 'f' and len(v):
            k = g.rng.random(len(v)) < 0.3
            i, j = np.concatenate([i, i[k]]), np.concatenate([j, j[k]])
            half = v[k] / 4
            v = np.concatenate([v, half])
            v[np.nonzero(k)[0]] -= half
        if order == 'explicit zeros':
            n = len(A)
            zs = [(a, b) for a, b in zip(g.rng.integers(0, n, size=n).tolist(), g.rng.integers(0, n, size=n).tolist()) if A[a, b] == 0]
            zs = sorted(set(zs + [(b, a) for a, b in zs]))
            i = np.concatenate([i, [a for a, _ in zs]]).astype(i.dtype)
            j = np.concatenate([j, [b for _, b in zs]]).astype(j.dtype)
            v = np.concatenate([v, np.zeros(len(zs), v.dtype)])
        key, other = (j, i) if 'csc' in form else (i, j)
        perm = g.rng.permutation(len(v)) if order != 'explicit zeros' or g.chance(0.5) else np.lexsort((other, key))
        perm = perm[np.argsort(key[perm], kind='stable')]
        ptr = np.concatenate([[0], np.cumsum(np.bincount(key, minlength=len(A)))]).astype('i4')
        M = cls((v[perm], other[perm].astype('i4'), ptr), shape=A.shape)
    elif order == 'long indices':
        M.indices, M.indptr = M.indices.astype('i8'), M.indptr.astype('i8')
    elif order == 'strided data':
        M.data = np.repeat(M.data, 2)[::2]
    elif order == 'spare room':
        M.data = np.concatenate([M.data, np.full(5, 77).astype(M.data.dtype)])
        M.indices = np.concatenate([M.indices, np.full(5, 0, M.indices.dtype)])
    elif order == 'frozen':
        for a in (M.data, M.indices, M.indptr):
            a.flags.writeable = False
    c.bucket(form, order)
    return M


def snapshot(M):
    if not hasattr(M, 'indptr'):
        D = M.toarray()
        return [(D, D.dtype, True)] * 3 + [M.shape, M.format]
    return [(a.copy(), a.dtype, a.flags.writeable) for a in (M.data, M.indices, M.indptr)] + [M.shape, M.format]


def factor(c, M, A):
    """Call, check what always holds, and return (L dense, k, permutation, permuted matrix)."""
    n = len(A)
    before = snapshot(M)
    got = c.call(lchol, M)
    c.check(isinstance(got, tuple) and len(got) == 3, 'returns %r', type(got))
    L, k, S = got
    after = snapshot(M)
    for (x, dt, wr), (y, dt2, wr2) in zip(before[:3], after[:3]):
        c.check(dt == dt2 and wr == wr2, 'the storage of the input was changed')
        c.equal(y, x, 'the input after')
    c.check(before[3:] == after[3:], 'the input was reshaped')
    k = int(k)
    c.check(0 <= k <= n, 'reports step %d of %d', k, n)
    cols = n if k == 0 else k - 1
    c.check(L.shape == (n, cols), 'L has shape %s, expected %s', L.shape, (n, cols))
    c.check(S.shape == (n, n), 'S has shape %s', S.shape)
    Sd = S.toarray()
    c.check(np.all((Sd == 0) | (Sd == 1)) and np.all(Sd.sum(0) == 1) and np.all(Sd.sum(1) == 1), 'S is not a permutation')
    c.check(len(L.indices) == len(L.data) == (L.indptr[-1] if len(L.indptr) else 0) and (not len(L.indices) or 0 <= L.indices.min() <= L.indices.max() < n), 'L is malformed')
    c.check(np.all(np.isfinite(L.data)), 'L is not finite')
    D = L.toarray()
    c.check(not np.any(np.triu(D, 1)), 'L is not lower triangular')
    c.check(np.all(np.diagonal(D) > 0) and len(np.diagonal(D)) == cols, 'the diagonal of L is not positive')
    q = np.argmax(Sd, axis=0)
    P = A[np.ix_(q, q)]
    return D, k, q, P


def factors(c, D, P, cols):
    n = len(P)
    D = D.astype(np.longdouble)
    got = np.dot(D, D[:cols].T)
    d = np.sqrt(np.abs(np.diagonal(P)).astype(np.longdouble))
    # for the columns kept: componentwise backward error of a Cholesky factorization
    lens = np.sqrt((D ** 2).sum(axis=1))
    tol = 20 * (n + 1) * EPS * np.maximum(lens[:, None], d[:, None]) * d[None, :cols]
    c.close(got, P[:, :cols].astype(np.longdouble), tol, "S'AS against LL'")


@workload(quick=2500)
def positive_definite(c):
    g = c.g
    A, kind = definite(c)
    dtype = None
    if g.chance(0.12):
        A = A.astype('f4').astype(float)
        dtype = 'f4'
        lo = scipy.linalg.eigvalsh(A)
        if not np.isfinite(lo).all() or lo[0] < 1e-4 * lo[-1]:
            raise Skip
    else:
        d = np.sqrt(np.diagonal(A))
        w = scipy.linalg.eigvalsh(A / d[:, None] / d[None, :])
        if not w[0] > 1e-8 * w[-1]:
            raise Skip
    c.input('A', A)
    M = stored(c, A, dtype)
    c.bucket(kind, 'n %s' % ('1' if len(A) == 1 else '<10' if len(A) < 10 else '<64' if len(A) < 64 else '>=64'), str(M.dtype))
    D, k, q, P = factor(c, M, A)
    c.check(k == 0, 'a positive definite matrix is reported indefinite at step %d', k)
    factors(c, D, P, len(A))
    c.bucket('reordered' if np.any(q != np.arange(len(A))) else 'natural order', 'fill' if np.count_nonzero(D) > np.count_nonzero(np.tril(P)) else 'no fill')
    if g.chance(0.1):
        D2, k2, q2, _ = factor(c, M, A)
        c.equal(D2, D, 'the second factorization'), c.equal(q2, q, 'the second permutation')


@workload(quick=800)
def integers(c):
    """Integer, boolean and extended types hold the same matrix."""
    g = c.g
    A, kind = symmetric(c)
    n = len(A)
    A = np.round(A * 2)
    A[np.diag_indices(n)] = np.abs(A).sum(axis=1) + g.rng.integers(1, 5, size=n)
    dtype = g.pick(['i8', 'i4', 'i2', 'u1', 'i1', 'longdouble', 'bool', 'u8'])
    if dtype in ('u1', 'u8'):
        A = np.abs(A)
    if dtype == 'bool':
        A = np.eye(n)
    if dtype in ('u1', 'i1') and A.max() > (255 if dtype == 'u1' else 127):
        dtype = 'i2'
    c.input('A', A), c.input('dtype', dtype)
    M = stored(c, A, dtype)
    c.bucket(dtype, kind)
    D, k, q, P = factor(c, M, A)
    c.check(k == 0, 'a positive definite matrix is reported indefinite at step %d', k)
    factors(c, D, P, n)


@workload(quick=2500)
def indefinite(c):
    g = c.g
    how = g.pick(['negative pivot', 'zero diagonal', 'shift', 'missing diagonal', 'minus', 'small block'])
    if how in ('negative pivot', 'zero diagonal', 'missing diagonal', 'small block'):
        A, kind = definite(c)
        n = len(A)
        i = g.pick([0, n - 1, g.integer(0, n - 1)])
        if how == 'small block' and n > 1:
            j = g.integer(0, n - 1)
            j = (i + 1) % n if j == i else j
            A[i, j] = A[j, i] = 1.5 * np.sqrt(A[i, i] * A[j, j]) * g.pick([-1, 1])
        else:
            A[i, i] = -abs(A[i, i]) * g.pick([1, 0.5]) if how == 'negative pivot' else 0.
    else:
        A, kind = symmetric(c)
        n = len(A)
        if how == 'minus':
            A[np.diag_indices(n)] = -(np.abs(A).sum(axis=1) + 1)
        else:
            w = scipy.linalg.eigvalsh(A)
            A[np.diag_indices(n)] -= w[g.integer(0, n - 1)] + 0.01 * (1 + np.abs(A).max())
    c.input('A', A), c.input('how', how)
    scale = np.sqrt(np.maximum(np.abs(np.diagonal(A)), 1e-300))
    w = scipy.linalg.eigvalsh(A)
    zero_pivot = np.any(np.diagonal(A) <= 0)
    if not zero_pivot and not w[0] < -1e-6 * np.abs(w).max():
        raise Skip
    M = stored(c, A)
    n = len(A)
    c.bucket(how, 'n %s' % ('1' if n == 1 else '<10' if n < 10 else '<64' if n < 64 else '>=64'))
    D, k, q, P = factor(c, M, A)
    c.check(k > 0, 'a matrix that is not positive definite is reported as factored')
    c.bucket('first step' if k == 1 else 'last step' if k == n else 'step between')
    factors(c, D, P, k - 1)
    # the step named is the one that fails: its pivot is not positive
    ld = D.astype(np.longdouble)
    pivot = P[k - 1, k - 1] - (ld[k - 1] ** 2).sum() if k > 1 else np.longdouble(P[0, 0])
    c.check(pivot <= 50 * (n + 1) * EPS * max(abs(P[k - 1, k - 1]), float((ld[k - 1] ** 2).sum())),
            'step %d is reported, but its pivot is %g', k, float(pivot))


@workload(quick=300)
def semidefinite(c):
    """Exactly singular: either answer is a rounding matter, but it must be consistent."""
    g = c.g
    A, kind = symmetric(c)
    n = len(A)
    B = np.tril(np.round(A))
    B[:, g.integer(0, n - 1)] = 0
    A = np.dot(B, B.T)
    if g.chance(0.3):
        A[:] = 0
    c.input('A', A)
    M = stored(c, A)
    D, k, q, P = factor(c, M, A)
    c.bucket('factored' if k == 0 else 'refused')
    if k == 1:
        c.check(P[0, 0] <= 0, 'step 1 is reported with pivot %g', P[0, 0])
    if not np.any(A):
        c.check(k > 0, 'the zero matrix is reported as factored')
    d = np.sqrt(np.diagonal(P)) if k == 0 else np.sqrt(np.diagonal(P))[:k - 1]
    if k == 0 and D.min() is not None and np.diagonal(D).min() < 1e-5 * np.abs(D).max():
        return
    factors(c, D, P, n if k == 0 else k - 1)


@workload(quick=24)
def large(c):
    """Up to 70000 rows, compared sparsely."""
    g = c.g
    n = g.pick([g.size(400, 3000), g.size(3000, 12000), g.size(30000, 70000)])
    kind = g.pick(['band', 'grid', 'tree', 'random', 'arrow'])
    k = np.arange(1, n)
    if kind == 'band':
        i, j = k, k - 1
    elif kind == 'grid':
        w = int(np.sqrt(n)) if n < 12000 else 12
        i, j = np.concatenate([k[k % w != 0], k[k >= w]]), np.concatenate([k[k % w != 0] - 1, k[k >= w] - w])
    elif kind == 'tree':
        i, j = k, (g.rng.random(n - 1) * k).astype(int)
    elif kind == 'arrow':
        i, j = k, np.zeros(n - 1, int)
    else:
        m = n // 3
        i, j = g.rng.integers(0, n, m), g.rng.integers(0, n, m)
        i, j = i[i != j], j[i != j]
    ij = np.unique(np.stack([np.maximum(i, j), np.minimum(i, j)]), axis=1)
    v = g.rng.normal(size=ij.shape[1])
    A = sp.coo_matrix((v, (ij[0], ij[1])), shape=(n, n))
    A = A + A.T
    p = g.rng.permutation(n) if g.chance(0.7) else np.arange(n)
    A = A.tocsc()[p][:, p]
    diag = np.asarray(abs(A).sum(axis=1)).ravel() + g.rng.uniform(0.1, 2, size=n)
    spoil = g.chance(0.4)
    if spoil:
        diag[g.pick([0, n - 1, g.integer(0, n - 1)])] *= -1
    A = (A + sp.diags(diag)).tocsc()
    c.input('A', [n, kind, v]), c.input('diagonal', diag)
    c.bucket(kind, 'n %d..' % 10 ** int(np.log10(n)), 'spoiled' if spoil else 'definite')
    L, step, S = c.call(lchol, A if g.chance(0.7) else A.tocsr())
    step = int(step)
    c.check((step > 0) == spoil, 'reports step %d', step)
    cols = step - 1 if spoil else n
    c.check(L.shape == (n, cols) and S.shape == (n, n), 'shapes %s, %s', L.shape, S.shape)
    S = S.tocsc()
    c.check(len(S.data) == n and np.all(S.data == 1) and np.array_equal(S.indptr, np.arange(n + 1)) and np.array_equal(np.sort(S.indices), np.arange(n)), 'S is not a permutation')
    L = L.tocsc()
    c.check(sp.triu(L, 1).nnz == 0 and (cols == 0 or np.all(L.diagonal()[:cols] > 0)), 'L is not lower triangular with positive diagonal')
    P = (S.T.dot(A).dot(S)).tocsc()
    R = abs(L.dot(L[:cols].T) - P[:, :cols]) if cols else None
    d = np.sqrt(np.abs(P.diagonal()))
    lens = np.sqrt(np.asarray(L.multiply(L).sum(axis=1)).ravel())
    if cols:
        R = R.tocoo()
        width = np.diff(L.tocsr().indptr).max() + 1
        tol = 20 * (width + 1) * EPS * np.maximum(lens, d)[R.row] * d[R.col]
        c.check(np.all(R.data <= tol), "S'AS against LL': off by %g", float(np.max(R.data, initial=0.)))
    if spoil:
        pivot = P[step - 1, step - 1] - (lens[step - 1] ** 2 if cols else 0)
        c.check(pivot <= 1e-9 * max(abs(P[step - 1, step - 1]), lens[step - 1] ** 2), 'step %d is reported, but its pivot is %g', step, pivot)
