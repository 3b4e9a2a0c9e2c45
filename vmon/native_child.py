"""Runs under AddressSanitizer+UBSan, under valgrind memcheck, or plain with the allocator
watched: factorizes a stream of good and hostile sparse matrices and reports one JSON line per
event. argv: MODE SO SEED FIRST COUNT EVENTS TIER"""
import collections
import ctypes
import gc
import json
import os
import sys
import warnings

import numpy as np
import scipy.sparse as sp

from vmon.core import Case, Skip, Stats, Violation
from vmon.run import load_cholmod, setup_import


class Mallinfo2(ctypes.Structure):
    _fields_ = [(n, ctypes.c_size_t) for n in ('arena', 'ordblks', 'smblks', 'hblks', 'hblkhd', 'usmblks', 'fsmblks', 'uordblks', 'fordblks', 'keepcost')]


def in_use():
    gc.collect()
    lib = ctypes.CDLL(None)
    lib.mallinfo2.restype = Mallinfo2
    m = lib.mallinfo2()
    return m.uordblks + m.hblkhd


def hostile(c, c23):
    """(label, sparse matrix, True when it must be factored, False when it must be refused, None)"""
    g = c.g
    kind = g.pick(['definite', 'definite', 'definite', 'integers', 'indefinite', 'indefinite', 'lower', 'unsymmetric',
                   'wide', 'tall', 'empty', 'zero', 'nan', 'odd dtype', 'big', 'one', 'huge values', 'row'])
    if kind == 'integers':
        A, _ = c23.definite(c)
        A = np.round(A / np.abs(A).max() * 100)
        return kind, c23.stored(c, A, g.pick(['i8', 'i4', 'i2', 'i1', 'f4', 'u1', 'bool'])), None
    if kind == 'definite':
        A, _ = c23.definite(c)
        return kind, c23.stored(c, A), None
    if kind == 'indefinite':
        A, _ = c23.definite(c)
        i = g.integer(0, len(A) - 1)
        A[i, i] = g.pick([-1, 0, -1]) * abs(A[i, i])
        return kind, c23.stored(c, A), 'indefinite'
    if kind == 'lower':
        A, _ = c23.definite(c)
        return kind, c23.stored(c, g.pick([np.tril, np.triu])(A)), None
    if kind == 'unsymmetric':
        n = g.size(1, 40)
        return kind, c23.stored(c, g.rng.normal(size=(n, n)) * (g.rng.random((n, n)) < g.pick([0.1, 0.5, 1]))), None
    if kind in ('wide', 'tall', 'row'):
        m, n = g.size(1, 20), g.size(1, 20)
        if m == n:
            n += 1
        m, n = (1, n + 1) if kind == 'row' else (min(m, n), max(m, n)) if kind == 'wide' else (max(m, n), min(m, n))
        M = g.pick([sp.csc_matrix, sp.csr_matrix])(g.rng.normal(size=(m, n)) * (g.rng.random((m, n)) < 0.6))
        return kind, M, 'refused'
    if kind == 'empty':
        return kind, sp.csc_matrix((0, 0)), None
    if kind == 'zero':
        n = g.size(1, 60)
        return kind, g.pick([sp.csc_matrix, sp.csr_matrix])((n, n)), 'indefinite'
    if kind == 'nan':
        A, _ = c23.definite(c)
        i = g.integer(0, len(A) - 1)
        A[i, i] = g.pick([np.nan, np.inf, -np.inf])
        return kind, c23.stored(c, A), None
    if kind == 'odd dtype':
        A = np.eye(g.size(1, 20)) * 2
        return kind, g.pick([sp.csc_matrix, sp.csr_matrix])(A.astype(g.pick(['c16', 'c8', 'u8', 'u4', '>f8' if False else 'f4']))), None
    if kind == 'big':
        n = g.integer(200, 1500)
        M = sp.random(n, n, density=2. / n, random_state=int(g.integer(0, 2 ** 30)), format='csc')
        return kind, (M + M.T + sp.identity(n) * 8).tocsc(), None
    if kind == 'one':
        return kind, sp.csc_matrix(np.array([[g.pick([4.0, 0.0, -1.0, 1e-300, 1e300])]])), None
    A, _ = c23.definite(c)
    return kind, c23.stored(c, A * g.pick([1e300, 1e-300, 1e150])), None


def use(x):
    """Make a decision on every number, so that undefined bytes are noticed."""
    for a in x:
        if a.dtype.kind == 'f':
            t = float(np.nansum(a))
        else:
            t = float(a.sum())
        if t == 12345.6789:
            sys.stderr.write('')


def digest(x):
    return [a.tobytes() for a in x]


def parts(L, S):
    return (L.data, L.indices, L.indptr, S.data, S.indices, S.indptr)


def main():
    mode, so, seed, first, count, events, tier = sys.argv[1:8]
    seed, first, count = int(seed), int(first), int(count)
    setup_import()
    load_cholmod(so)
    from blmath.numerics.linalg import cholmod
    from blmath.numerics.linalg.lchol import lchol
    from vmon.props import c23
    fd = os.open(events, os.O_WRONLY | os.O_CREAT | os.O_TRUNC)
    devnull = os.open(os.devnull, os.O_WRONLY)
    os.dup2(devnull, 1)

    def emit(**kw):
        os.write(fd, (json.dumps(kw) + '\n').encode())
    warnings.simplefilter('ignore')
    np.seterr(all='ignore')
    stats = Stats()
    if mode == 'growth':
        growth(seed, first, count, emit, lchol, cholmod, c23, stats)
        emit(end=True)
        return
    kept = collections.deque()
    for index in range(first, first + count):
        c = Case('C24', mode, seed, index, tier, stats)
        emit(start=index)
        try:
            label, M, must = hostile(c, c23)
        except Skip:
            continue
        asserted = 0
        before = c23.snapshot(M) if hasattr(M, 'indptr') else None
        c.input('label', label), c.input('M', M.toarray() if M.size and M.shape[0] < 60 else repr(M))
        outcome = 'raised'
        for _ in range(c.g.pick([1, 1, 2])):
            try:
                L, k, S = lchol(M)
            except Exception as e:
                outcome = 'raised ' + type(e).__name__
                if must == 'indefinite' or label == 'definite':
                    emit(bad=index, what='%s matrix: %r' % (label, e))
                continue
            outcome = 'factored' if k == 0 else 'refused'
            ps = parts(L, S)
            for a in ps:
                root = a
                while isinstance(root.base, np.ndarray):
                    root = root.base
                if not (root.flags.owndata and root.base is None):
                    emit(bad=index, what='a result does not own its data')
                asserted += 1
            use(ps)
            if must == 'refused':
                emit(bad=index, what='a matrix that is not square is factored')
            if must == 'indefinite' and k == 0:
                emit(bad=index, what='an indefinite matrix is reported as factored')
            kept.append((index, ps, digest(ps)))
        if before is not None:
            after = c23.snapshot(M)
            same = all(x[0].tobytes() == y[0].tobytes() for x, y in zip(before[:3], after[:3]))
            asserted += 1
            if not same:
                emit(bad=index, what='the input was overwritten')
        del M
        while len(kept) > 12:
            i, ps, d = kept.popleft()
            asserted += 1
            if digest(ps) != d:
                emit(bad=i, what='results changed after later calls')
        emit(done=index, label=label, outcome=outcome, asserted=asserted + 1, digest=c.digest().hex())
    for i, ps, d in kept:
        if digest(ps) != d:
            emit(bad=i, what='results changed after later calls')
    for bad in ((), (1, 2)):
        try:
            cholmod.lchol_c(*bad)
        except TypeError:
            pass
    emit(end=True)


def growth(seed, first, count, emit, lchol, cholmod, c23, stats):
    per = 150

    class Fake(object):
        pass

    def definite(c):
        A, _ = c23.definite(c)
        return sp.csc_matrix(A)

    def indefinite(c):
        A, _ = c23.definite(c)
        A[-1, -1] *= -1
        return sp.csc_matrix(A)

    def dense(c):
        n = 90
        B = c.rng.normal(size=(n, n))
        return sp.csc_matrix(np.dot(B, B.T) + np.eye(n))

    def dense_bad(c):
        M = dense(c).toarray()
        M[c.g.integer(0, 89), :] *= 1e-3
        M[5, 5] = -1
        return sp.csc_matrix((M + M.T) / 2)

    def oblong(c):
        return sp.csc_matrix(c.rng.normal(size=(c.g.integer(1, 9), 10)))

    def converted(c):
        A, _ = c23.definite(c)
        M = sp.csr_matrix(A.astype('f4'))
        M.indices = M.indices.astype('i8')
        return M

    def zero(c):
        return sp.csc_matrix((7, 7))

    def empty(c):
        return sp.csc_matrix((0, 0))
    makers = [definite, indefinite, dense, dense_bad, oblong, converted, zero, empty]
    for index in range(first, first + count):
        c = Case('C24', 'growth', seed, index, 'quick', stats)
        make = makers[index % len(makers)]
        for fresh in (False, True):
            emit(start=index)
            M = make(c)
            protos = [make(c) for _ in range(4)]
            c.input('M', M.toarray() if M.shape[0] else repr(M))
            outcomes = collections.Counter()
            refs = [sys.getrefcount(x) for x in (M, M.data, M.indices, M.indptr, M.shape)]

            def burst(n):
                for i in range(n):
                    X = protos[i % 4].copy() if fresh else M
                    try:
                        outcomes['factored' if lchol(X)[1] == 0 else 'refused'] += 1
                    except Exception as e:
                        outcomes[type(e).__name__] += 1
            burst(200)
            steps = []
            last = in_use()
            # numpy's own caches fill up at first; a leak (32 bytes at least) never stops
            while len(steps) < 30:
                burst(per)
                now = in_use()
                steps.append(now - last)
                last = now
                if steps[-1] < 24 * per and len(steps) >= 2:
                    break
            else:
                emit(bad=index, what='%s (%s matrix): memory in use grows by %s bytes per %d calls' % (make.__name__, 'fresh' if fresh else 'same', steps, per))
            after = [sys.getrefcount(x) for x in (M, M.data, M.indices, M.indptr, M.shape)]
            if after != refs:
                emit(bad=index, what='%s: reference counts of the input went from %s to %s' % (make.__name__, refs, after))
            emit(done=index, label='%s %s' % (make.__name__, 'fresh' if fresh else 'same'), outcome='+'.join(sorted(outcomes)), asserted=2,
                 digest=c.digest().hex(), calls=200 + len(steps) * per, steps=steps)


if __name__ == '__main__':
    main()
