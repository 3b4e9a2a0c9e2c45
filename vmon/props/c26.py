"""C26: block-sparse splitting and products against the plain dense matrix, conjugate-gradient
solutions against their true residual, on rectangular and square matrices with random dense
rows, dense columns, empty rows, empty columns and masks."""
import numpy as np
import scipy.sparse as sp
import scipy.sparse.linalg  # noqa

from vmon.core import workload, Skip
from blmath.numerics.linalg import static_block_sparse_matrix as sb
from blmath.numerics.linalg.sparse_cg import block_sparse_cg_solve

EPS = np.finfo(float).eps


def matrix(c, square=False):
    g = c.g
    m = g.size(1, 60 if g.chance(0.3) else 14)
    n = m if square or g.chance(0.4) else g.size(1, 60 if g.chance(0.3) else 14)
    A = g.rng.normal(size=(m, n)) * (g.rng.random((m, n)) < g.pick([0.0, 0.03, 0.1, 0.3, 0.8]))
    for _ in range(g.pick([0, 0, 1, 2, 3])):
        A[g.integer(0, m - 1)] = g.rng.normal(size=n) * (g.rng.random(n) < g.pick([0.7, 1.0]))
    for _ in range(g.pick([0, 0, 1, 2, 3])):
        A[:, g.integer(0, n - 1)] = g.rng.normal(size=m) * (g.rng.random(m) < g.pick([0.7, 1.0]))
    if g.chance(0.3):
        A[g.integer(0, m - 1)] = 0
    if g.chance(0.3):
        A[:, g.integer(0, n - 1)] = 0
    if g.chance(0.2):
        A = np.round(A * 3)
    if g.chance(0.15):
        A = A * g.scale(1e-9, 1e9)
    return A


def stored(c, A):
    g = c.g
    dtype = g.pick([None, None, None, 'f4', 'i8']) if np.array_equal(A, np.round(A)) and np.abs(A).max(initial=0) < 1000 else None
    D = A if dtype is None else A.astype(dtype)
    fmt = g.pick(['csr', 'csc', 'coo', 'csr', 'coo dup', 'csr unsorted', 'lil', 'dok'])
    c.bucket(fmt, str(D.dtype))
    if fmt == 'coo dup' and dtype is None:
        M = sp.coo_matrix(D)
        k = g.rng.random(len(M.data)) < 0.4
        v = np.concatenate([M.data, M.data[k] / 2])
        v[np.nonzero(k)[0]] /= 2
        return sp.coo_matrix((v, (np.concatenate([M.row, M.row[k]]), np.concatenate([M.col, M.col[k]]))), shape=A.shape)
    if fmt == 'csr unsorted':
        M = sp.csr_matrix(D)
        for r in range(A.shape[0]):
            s = slice(M.indptr[r], M.indptr[r + 1])
            p = g.rng.permutation(M.indptr[r + 1] - M.indptr[r])
            M.indices[s], M.data[s] = M.indices[s][p], M.data[s][p]
        M.has_sorted_indices = False
        return M
    return sp.csr_matrix(D).asformat(fmt.split()[0])


def split(c, square=False):
    g = c.g
    A = c.input('A', matrix(c, square))
    M = stored(c, A)
    m, n = A.shape
    kw = {}
    if g.chance(0.5):
        kw['row_sparsity'] = g.pick([lambda: g.rng.random(m) < 0.7, lambda: np.ones(m, bool), lambda: np.zeros(m, bool), lambda: np.zeros(0, bool)])()
    if g.chance(0.5):
        kw['column_sparsity'] = g.pick([lambda: g.rng.random(n) < 0.7, lambda: np.ones(n, bool), lambda: np.zeros(n, bool), lambda: np.zeros(0, bool)])()
    if g.chance(0.6):
        kw['sparsity_threshold'] = g.pick([0.05, 0.1, 0.2, 0.5, 0.9, 1.1, 0.01])
    if 'row_sparsity' in kw and 'column_sparsity' in kw and g.chance(0.3):  # zeros that are stored
        M = M.tocsr().copy()
        z = g.rng.random(M.nnz) < 0.3
        A = A.copy()
        M.sum_duplicates()
        z = z[:M.nnz]
        M.data[z] = 0
        A[M.tocoo().row[z], M.tocoo().col[z]] = 0
        M = M.asformat(g.pick(['csr', 'csc', 'coo']))
        c.bucket('stored zeros')
    c.input('kw', repr(kw))
    before = M.toarray()
    parts = {k: getattr(M, k).copy() for k in ('data', 'indices', 'indptr', 'row', 'col') if isinstance(getattr(M, k, None), np.ndarray) and M.format in ('csr', 'csc', 'coo')}
    masks = {k: v.copy() for k, v in kw.items() if isinstance(v, np.ndarray)}
    B = c.call(sb.StaticBlockSparseMatrix, M, **kw)
    for k in parts:
        c.equal(getattr(M, k), parts[k], 'what the matrix stores after splitting')
    c.equal(M.toarray(), before, 'the matrix after splitting')
    for k, v in masks.items():
        c.equal(kw[k], v, 'the mask after splitting')
    return A, B, kw


def expected_masks(A, kw):
    m, n = A.shape
    t = kw.get('sparsity_threshold', 0.05) * max(m, n)
    out = []
    for key, size, counts in (('row_sparsity', m, (A != 0).sum(axis=1)), ('column_sparsity', n, (A != 0).sum(axis=0))):
        mask = kw.get(key)
        if mask is None:
            mask = np.array([k < t for k in counts], bool)
        elif len(mask) == 0:
            mask = np.ones(size, bool)
        out.append(mask)
    return out


@workload(quick=2500)
def blocks(c):
    A, B, kw = split(c)
    rs, cs = expected_masks(A, kw)
    m, n = A.shape
    c.equal(c.get(B, 'row_sparsity'), rs, 'row mask'), c.equal(c.get(B, 'column_sparsity'), cs, 'column mask')
    c.equal(B.row_density, ~rs, 'dense rows'), c.equal(B.column_density, ~cs, 'dense columns')
    c.check(B.shape == (m, n), 'shape %s', B.shape)
    rsi, rdi, csi, cdi = np.nonzero(rs)[0], np.nonzero(~rs)[0], np.nonzero(cs)[0], np.nonzero(~cs)[0]
    for name, want in (('sparse_row_indices', rsi), ('dense_row_indices', rdi), ('sparse_column_indices', csi), ('dense_column_indices', cdi)):
        c.equal(c.get(B, name), want, name)
        c.check(c.get(B, 'num_' + name[:-len('_indices')] + 's') == len(want), 'number of %s', name)
    c.bucket('%s rows %s columns' % ('mixed' if len(rsi) and len(rdi) else 'sparse' if len(rsi) else 'dense', 'mixed' if len(csi) and len(cdi) else 'sparse' if len(csi) else 'dense'))
    want = {'block_ss': np.where(rs[:, None] & cs[None, :], A, 0), 'block_s': np.where(rs[:, None], A, 0), 'block_d_sparse': np.where(~rs[:, None], A, 0),
            'sparse_block': A[np.ix_(rsi, csi)], 'block_sd': A[np.ix_(rsi, cdi)], 'block_ds': A[np.ix_(rdi, csi)], 'block_dd': A[np.ix_(rdi, cdi)], 'block_d': A[rdi]}
    want['block_ss_csc'], want['block_s_csc'] = want['block_ss'], want['block_s']
    for name, w in want.items():
        x = getattr(B, name)
        x = x.toarray() if sp.issparse(x) else np.asarray(x)
        c.equal(x, w, name)
    whole = np.zeros((m, n))
    whole[np.ix_(rsi, csi)] = B.sparse_block.toarray()
    whole[np.ix_(rsi, cdi)], whole[np.ix_(rdi, csi)], whole[np.ix_(rdi, cdi)] = B.block_sd, B.block_ds, B.block_dd
    c.equal(whole, A, 'the blocks put together')


@workload(quick=1500)
def masks(c):
    g = c.g
    A = c.input('A', matrix(c))
    M = stored(c, A)
    m, n = A.shape
    r, k = g.rng.random(m) < g.pick([0.2, 0.5, 1.0]), g.rng.random(n) < g.pick([0.2, 0.5, 1.0])
    if g.chance(0.1):
        r[:] = False
    if g.chance(0.1):
        k[:] = False
    c.input('r', r), c.input('k', k)
    r0, k0 = r.copy(), k.copy()
    c.equal(c.call(sb.mask_sparse_matrix_by_rows, M, r).toarray(), np.where(r[:, None], A, 0), 'masked by rows')
    c.equal(c.call(sb.mask_sparse_matrix_by_columns, M, k).toarray(), np.where(k[None, :], A, 0), 'masked by columns')
    if r.any() and k.any():
        c.equal(c.call(sb.mask_sparse_matrix, M, r, k).toarray(), np.where(r[:, None] & k[None, :], A, 0), 'masked by both')
    c.equal(M.toarray(), A, 'the matrix after'), c.equal(r, r0, 'row mask after'), c.equal(k, k0, 'column mask after')
    c.bucket('no rows' if not r.any() else 'rows', 'no columns' if not k.any() else 'columns')


@workload(quick=4000)
def products(c):
    g = c.g
    A, B, kw = split(c)
    m, n = A.shape
    L = A.astype(np.longdouble)
    W = np.abs(L)
    v = g.rng.normal(size=n)
    if g.chance(0.2):
        v = g.rng.integers(-5, 6, size=n)
    if g.chance(0.3):
        v = g.layout(v) if n > 1 else v
    c.input('v', v)
    v0 = np.array(v)
    rel = 4 * (max(m, n) + 2) * EPS
    c.close(c.call(B.matvec, v), L.dot(v), rel * W.dot(np.abs(v)) + 1e-300, 'matvec')
    c.equal(v, v0, 'the vector after')
    k = g.integer(1, 4)
    X = g.rng.normal(size=(n, k))
    if g.chance(0.3):
        X = np.asfortranarray(X)
    want, tol = L.dot(X), rel * W.dot(np.abs(X)) + 1e-300
    c.close(c.call(B.matmat, X), want, tol, 'matmat')
    c.close(c.call(B.matvec, X[:, :1]), want[:, :1], tol[:, :1], 'matvec of a column')
    if g.chance(0.3):
        c.close(c.call(B.matmat, sp.csr_matrix(X)).toarray(), want, tol, 'matmat, sparse')
    c.close(c.call(B.MMT).toarray(), L.dot(L.T), rel * W.dot(W.T) + 1e-300, 'MMT')
    c.close(c.call(B.MTM).toarray(), L.T.dot(L), rel * W.T.dot(W) + 1e-300, 'MTM')
    op = c.get(B, 'linOp')
    c.check(tuple(op.shape) == (m, n), 'linear operator of shape %s', op.shape)
    c.close(c.call(op.matvec, v), L.dot(v), rel * W.dot(np.abs(v)) + 1e-300, 'operator matvec')
    c.close(c.call(op.matvec, X[:, :1]), want[:, :1], tol[:, :1], 'operator matvec of a column')
    c.close(c.call(op.matmat, X), want, tol, 'operator matmat')
    c.close(c.call(op.dot, v), L.dot(v), rel * W.dot(np.abs(v)) + 1e-300, 'operator dot')
    rs, cs = B.row_sparsity, B.column_sparsity
    c.bucket('Gram by blocks' if not rs.all() and cs.all() else 'Gram of the matrix')
    if kw.get('row_sparsity') is None or len(kw.get('row_sparsity')):
        c.bucket('dense rows' if not rs.all() else 'no dense rows', 'dense columns' if not cs.all() else 'no dense columns')


@workload(quick=1500)
def conjugate_gradient(c):
    g = c.g
    n = g.size(1, 60)
    A = matrix_spd(c, n)
    M = stored(c, A)
    kw = {}
    if g.chance(0.5):
        kw['row_sparsity'] = g.rng.random(n) < 0.7
    if g.chance(0.5):
        kw['column_sparsity'] = g.rng.random(n) < 0.7
    B = c.call(sb.StaticBlockSparseMatrix, M, **kw)
    x = g.rng.normal(size=n) * g.pick([1, 1, 1, 10, 0.1, 10. ** g.rng.uniform(-12, 0)])
    b = A.dot(x)
    if g.chance(0.05):
        b = np.zeros(n)
    args = {}
    x0 = None
    if g.chance(0.5):
        x0 = args['x0'] = g.pick([x * 1.0, x + g.rng.normal(size=n) * 0.1, x + g.rng.normal(size=n) * 10. ** g.rng.uniform(-9, -1), x * (1 + 10. ** g.rng.uniform(-12, -3)), g.rng.normal(size=n), np.zeros(n), np.linalg.solve(A, b)])
    if g.chance(0.5):
        args['tol'] = g.pick([1e-9, 1e-6, 1e-3, 1e-10])
    if g.chance(0.4):
        args['maxiter'] = g.pick([n * 3 + 20, 500])
    else:
        args['maxiter'] = None
    c.input('A', A), c.input('b', b), c.input('args', repr(args))
    c.bucket('guess' if x0 is not None else 'no guess', 'n %s' % ('<8' if n < 8 else '>=8'), 'zero' if not b.any() else 'rhs')
    keep = b.copy(), None if x0 is None else x0.copy()
    got = c.call(B.conjGradSolve, b, **args)
    c.check(isinstance(got, tuple) and len(got) == 2, 'returns %r', type(got))
    r = b.astype(np.longdouble) - A.astype(np.longdouble).dot(got[0])
    c.check(np.shape(got[0]) == (n,) and np.all(np.isfinite(got[0])), 'returns %r', got[0])
    tol = args.get('tol', 1e-9)
    c.check(np.sqrt((r ** 2).sum()) <= tol * 1.001 + 1e-12 * (1 + np.abs(b).max()), 'residual %g, tolerance %g', float(np.sqrt((r ** 2).sum())), tol)
    c.equal(b, keep[0], 'right-hand side after')
    if x0 is not None:
        c.equal(x0, keep[1], 'initial guess after')
    lim = args['maxiter'] or n
    c.check(0 <= got[1] < max(lim, 1), '%s iterations', got[1])


def matrix_spd(c, n):
    """Condition number below about 12."""
    g = c.g
    A = g.rng.normal(size=(n, n)) * (g.rng.random((n, n)) < g.pick([0.05, 0.2, 0.6]))
    for _ in range(g.pick([0, 1, 2])):
        A[:, g.integer(0, n - 1)] = g.rng.normal(size=n)
    A = (A + A.T) / 2
    w = np.linalg.eigvalsh(A)
    s = max(w[-1] - w[0], 1e-3)
    A += np.eye(n) * (s / g.pick([2, 5, 10]) - w[0])
    return A * g.pick([1, 1, 1 / s])


@workload(quick=160, mult=15)
def block_solver(c):
    """Mostly sparse systems with columns above and below the size that counts as dense."""
    g = c.g
    big = g.chance(0.5)
    n = g.integer(1005, 1400) if big else g.size(2, 120)
    m = int(n * g.pick([0.5, 1, 2]))
    i, j = g.rng.integers(0, n, size=m), g.rng.integers(0, n, size=m)
    v = g.rng.normal(size=m)
    M = sp.coo_matrix((v, (i, j)), shape=(n, n)).tocsr()
    M = (M + M.T) / 2
    dense = []
    if big:
        dense = sorted(set(g.rng.integers(0, n, size=g.integer(0, 4)).tolist()))
    M = M.tolil()
    for d in dense:
        # at least a thousand entries, or nearly
        k = g.pick([n, n, g.integer(1000, n), 999, 1000, 1001])
        at = g.rng.permutation(n)[:k]
        vals = g.rng.normal(size=k) * 0.1
        for a, x in zip(at, vals):
            M[d, a] = x
            M[a, d] = x
    empty = []
    if g.chance(0.5):
        empty = sorted(set(g.rng.integers(0, n, size=g.integer(1, 5)).tolist()) - set(dense))
    M = M.tocsr()
    off = np.asarray(abs(M).sum(axis=1)).ravel()
    M = M - sp.diags(M.diagonal()) + sp.diags(off + g.rng.uniform(0.5, 1.5, size=n))
    keep = np.ones(n)
    keep[empty] = 0
    K = sp.diags(keep)
    M = (K @ M @ K).tocsr()
    M.eliminate_zeros()
    if M.nnz == 0:
        raise Skip
    if g.chance(0.4):  # zeros that are stored, also in rows and columns without another entry
        i, j = g.rng.integers(0, n, size=(2, g.integer(1, 6)))
        i, j = np.concatenate([i, j, empty]).astype(int), np.concatenate([j, i, empty]).astype(int)
        C = M.tocoo()
        new = ~np.isin(i * n + j, C.row.astype(int) * n + C.col)
        i, j = np.divmod(np.unique((i * n + j)[new]), n)
        M = sp.coo_matrix((np.concatenate([C.data, np.zeros(len(i))]), (np.concatenate([C.row, i]), np.concatenate([C.col, j]))), shape=(n, n))
        c.bucket('stored zeros')
    M = M.asformat(g.pick(['csr', 'csc']))
    solved(c, M, M.dot(g.rng.normal(size=n)) * g.scale(1e-3, 1e3), dense, empty)


@workload(quick=8)
def coupled_solver(c):
    """Many dense columns tied strongly to the sparse part: the preconditioner helps little and
    the iteration has work to do."""
    g = c.g
    n, nd = g.integer(1010, 1500), g.integer(5, 40)
    dense = g.rng.permutation(n)[:nd]
    W = g.rng.normal(size=(nd, n)) * g.pick([0.1, 0.3, 1.0])
    D = sp.lil_matrix((n, n)).tocsr()
    P = sp.csr_matrix((np.ones(nd), (dense, np.arange(nd))), shape=(n, nd))
    M = (D + P @ sp.csr_matrix(W)).tocsr()
    M = (M + M.T) / 2 + sp.diags(g.rng.uniform(0, 1, n))
    k = g.integer(0, n)
    i, j = g.rng.integers(0, n, size=k), g.rng.integers(0, n, size=k)
    S = sp.coo_matrix((g.rng.normal(size=k), (i, j)), shape=(n, n)).tocsr()
    M = (M + (S + S.T) / 2).tocsr()
    lo = sp.linalg.eigsh(M, k=1, which='SA', v0=np.ones(n), return_eigenvectors=False)[0]
    M = (M + sp.eye(n) * (max(-lo, 0) * (1 + g.pick([0.02, 0.1, 0.5])) + 0.1)).tocsr()
    solved(c, M.asformat(g.pick(['csr', 'csc'])), g.rng.normal(size=n), dense.tolist(), [])


def solved(c, M, b, dense, empty):
    n = len(b)
    c.input('n', n), c.input('data', M.data), c.input('indices', M.indices), c.input('b', b), c.input('dense', dense), c.input('empty', empty)
    counts = np.diff(M.tocsc().indptr)
    c.bucket('%d dense columns' % min(int((counts >= 1000).sum()), 4), 'empty rows' if empty else 'full')
    before, b0 = M.copy(), b.copy()
    x = c.call(block_sparse_cg_solve, M, b)
    c.check(np.shape(x) == (n,) and np.all(np.isfinite(x)), 'solution of shape %s', np.shape(x))
    r = np.linalg.norm(M.dot(x) - b)
    c.check(r <= 2e-5 * np.linalg.norm(b), 'relative residual %g', r / np.linalg.norm(b))
    c.equal(M.data, before.data, 'matrix after'), c.equal(M.indices, before.indices, 'indices after'), c.equal(b, b0, 'right-hand side after')
