"""C22: rounding against exact rational arithmetic, safe division and range scaling against
their definitions on every numeric type, reshape against memory sharing, Matlab helpers against
plain loops."""
import operator
import warnings
from decimal import Decimal, ROUND_HALF_EVEN, localcontext
from fractions import Fraction

import numpy as np

from vmon.core import workload, Violation
from blmath.numerics.rounding import round_to, rounded_list
from blmath.numerics.operations import zero_safe_divide, scale_to_range
from blmath.numerics.numpy_ext import np_reshape_safe, np_make_readonly
from blmath.numerics.matlab import bsxfun, row, col, sparse

U = Fraction(1, 2 ** 52)
TINY = Fraction(1, 2 ** 1060)


@workload(quick=8000)
def to_increment(c):
    g = c.g
    kind = g.pick(['unit-ish', 'decimal', 'binary', 'wide', 'integer', 'tie', 'multiple'])
    inc = {'unit-ish': lambda: float(g.rng.uniform(0.01, 10)),
           'decimal': lambda: g.pick([0.05, 0.1, 0.25, 0.01, 0.001, 0.2, 0.3, 0.5, 0.125, 1e-5, 2.54, 12.0]),
           'binary': lambda: 2.0 ** g.integer(-20, 20),
           'wide': lambda: g.scale(1e-60, 1e60) * float(g.rng.uniform(1, 10)),
           'integer': lambda: g.integer(1, 1000),
           'tie': lambda: g.pick([0.5, 0.25, 1.0, 2.0, 2, 3, 8.0, 10]),
           'multiple': lambda: float(g.rng.uniform(0.01, 10))}[kind]()
    if g.chance(0.15):
        inc = -inc
    n = g.pick([g.integer(-5, 5), g.integer(-1000, 1000), g.integer(-10 ** 9, 10 ** 9)])
    if kind == 'tie':
        v = (n + 0.5) * inc
    elif kind == 'multiple':
        v = n * inc
    else:
        v = (n + float(g.rng.uniform(-0.5, 0.5))) * inc
    v = float(v)
    if kind == 'tie' and g.chance(0.6):  # exactly half-way
        inc = 2. ** g.integer(-8, 8)  # so that every way of computing the ratio is exact
        n = g.integer(-1000, 1000)
        v = (n + 0.5) * inc
        exact = True
    else:
        exact = False
    if g.chance(0.2):
        v = g.pick([np.float64(v), int(v) if abs(v) < 1e300 else v])
    c.input('v', repr(v)), c.input('inc', repr(inc))
    c.bucket(kind, type(v).__name__)
    got = c.call(round_to, v, inc)
    fv, fi = Fraction(v if isinstance(v, int) else float(v)), Fraction(inc)
    q = fv / fi
    got = Fraction(got if isinstance(got, int) else float(got))
    slack = abs(q) * U * 2
    lo, hi = round(q - slack - Fraction(0)), round(q + slack)
    tie = abs((q - (q.numerator // q.denominator)) - Fraction(1, 2)) <= slack
    base = q.numerator // q.denominator
    cands = {lo, hi} | ({base, base + 1} if tie else set())
    if exact and Fraction(v) == (Fraction(2 * n + 1) / 2) * Fraction(inc):
        cands = {n + n % 2}
        c.bucket('exactly half-way')
    # which whole multiples may be meant; the number returned is one of them to a few ulps
    tol = abs(got) * U * 4 + TINY
    near = got / fi
    k = round(near)
    c.check(abs(got - k * fi) <= tol + abs(k * fi) * U * 4, 'round_to(%r, %r) = %r is not a multiple', v, inc, float(got))
    c.check(min(cands) <= k <= max(cands) or abs(k) > 2 ** 50 and abs(got - fv) <= abs(fi) + tol,
            'round_to(%r, %r) = %r is not the nearest multiple (%s)', v, inc, float(got), sorted(map(float, cands)))


@workload(quick=4000)
def lists(c):
    g = c.g
    n = g.count(0, 12, 3000, 0.01)
    p = c.input('precision', g.pick([None, 0, 1, 2, 3, 5, 8, -1, -2, 12]))
    xs = []
    for _ in range(n):
        k = g.integer(0, 6)
        if k == 0:
            xs.append(None)
        elif k == 1:
            xs.append(g.integer(-10 ** 6, 10 ** 6))
        elif k == 2:
            xs.append(g.integer(-1000, 1000) / 8.0)
        else:
            xs.append(float(g.rng.uniform(-1, 1)) * 10.0 ** g.integer(-4, 8))
    c.input('xs', xs)
    form = g.pick(['list', 'tuple', 'generator', 'iterator'])
    c.bucket(form, 'with None' if None in xs else 'plain', 'p=%s' % p)
    before = list(xs)
    given = {'list': lambda: xs, 'tuple': lambda: tuple(xs), 'generator': lambda: (x for x in xs), 'iterator': lambda: iter(xs)}[form]()
    got = c.call(rounded_list, given) if p is None else (c.call(rounded_list, given, p) if g.chance(0.5) else c.call(rounded_list, given, precision=p))
    c.check(isinstance(got, list) and len(got) == n, 'rounded_list returns %r', got)
    c.check(xs == before, 'the list given was changed')
    with localcontext() as ctx:
        ctx.prec = 1200
        for x, y in zip(xs, got):
            if x is None:
                c.check(y is None, 'None became %r', y)
                continue
            want = Decimal(x).quantize(Decimal(1).scaleb(-(p or 0)), rounding=ROUND_HALF_EVEN)
            c.check(y is not None and abs(Decimal(y) - want) <= abs(want) * Decimal(2) ** -52, 'round(%r, %s) gave %r', x, p, y)


SPECIAL = np.array([0., -0., 1., -1., np.inf, -np.inf, np.nan, 1e308, -1e308, 5e-324, 1e-308, 2., 3.])
DTYPES = ['f8', 'f8', 'f8', 'f4', 'i8', 'i4', 'u1', 'i1', 'u2']


def shapes(g):
    """Two broadcastable shapes, at least one not zero-dimensional."""
    full = [g.integer(1, 5) for _ in range(g.integer(1, 3))]
    if g.chance(0.01):
        full[0] = g.count(1, 100, 20000, 0.7)
    if g.chance(0.06):
        full[0] = 0

    def one():
        s = [1 if g.chance(0.25) else d for d in full]
        return tuple(s[g.integer(0, len(s)):]) if g.chance(0.3) else tuple(s)
    a, b = one(), one()
    if g.chance(0.5):
        a = b = tuple(full)
    if len(a) == 0 and len(b) == 0:
        a = tuple(full)
    return a, b


def numbers(g, shape, dt):
    dt = np.dtype(dt)
    if dt.kind in 'iu':
        info = np.iinfo(dt)
        x = g.rng.integers(max(info.min, -10 ** 6), min(info.max, 10 ** 6), size=shape, endpoint=True)
        x = np.where(g.rng.random(shape) < 0.3, 0, x)
        return np.asarray(x).astype(dt)
    x = g.rng.normal(size=shape) * 10.0 ** g.integer(-3, 3)
    if g.chance(0.3) and dt == 'f8':
        x = x * 10.0 ** g.integer(-250, 250)
    m = g.rng.random(shape)
    x = np.where(m < 0.25, 0., x)
    if g.chance(0.5):
        x = np.where(m > 0.75, g.rng.choice(SPECIAL, size=shape), x)
    with np.errstate(all='ignore'):
        return np.asarray(x).astype(dt)


@workload(quick=6000)
def safe_divide(c):
    g = c.g
    sa, sb = shapes(g)
    da, db = g.pick(DTYPES), g.pick(DTYPES)
    a, b = numbers(g, sa, da), numbers(g, sb, db)
    if g.chance(0.5):
        a, b = g.layout(a) if a.ndim else a, g.layout(b) if b.ndim else b
    c.input('a', a), c.input('b', b)
    d = c.input('default', g.pick([None, 0., -1., 7, float(g.rng.normal()), np.nan, np.inf]))
    a0, b0 = a.copy(), b.copy()
    arg = (a, b)
    if g.chance(0.15):
        arg = (a.tolist(), b.tolist()) if a.ndim and b.ndim and a.size and b.size else arg
        da, db = 'f8', 'f8'
    if g.chance(0.1) and sa:
        arg = (arg[0], b.ravel()[0].item()) if b.size else arg
        b = np.asarray(arg[1]) if b.size else b
    c.bucket('same shape' if sa == sb else 'broadcast', np.dtype(a.dtype).kind + np.dtype(b.dtype).kind)
    err0 = np.geterr()
    with warnings.catch_warnings():
        warnings.simplefilter('ignore')
        got = c.call(zero_safe_divide, *arg) if d is None else (c.call(zero_safe_divide, arg[0], arg[1], d) if g.chance(0.5) else c.call(zero_safe_divide, arg[0], arg[1], default_error_value=d))
    c.check(np.geterr() == err0, 'numpy error handling was left changed')
    c.equal(a, a0, 'dividend after'), c.equal(np.asarray(arg[1]) if np.ndim(arg[1]) == 0 else b, b if np.ndim(arg[1]) == 0 else b0, 'divisor after')
    with np.errstate(all='ignore'):
        q = np.true_divide(*arg)
    q = np.asarray(q)
    c.check(isinstance(got, np.ndarray) and got.shape == q.shape, 'shape %s, expected %s', np.shape(got), q.shape)
    fin = np.isfinite(q)
    c.bucket('some replaced' if not fin.all() else 'all finite')
    fi = np.finfo(q.dtype)
    c.close(got[fin], q[fin], 4 * float(fi.eps) * np.abs(q[fin]).astype(float) + 2 * float(fi.smallest_subnormal), 'finite quotients')
    # and they are quotients: checked against extended precision
    A, B = np.asarray(arg[0]), np.asarray(arg[1])
    with np.errstate(all='ignore'):
        if not isinstance(arg[1], np.ndarray) and B.ndim == 0:  # numpy gives a plain number the type of the array
            B = B.astype(q.dtype)
        A, B = np.broadcast_arrays(A.astype(np.longdouble), B.astype(np.longdouble))
        want = A / B
    sub = float(fi.smallest_subnormal)
    c.check(np.all(np.abs(got[fin].astype(np.longdouble) - want[fin]) <= np.abs(want[fin]) * 2 * float(fi.eps) + sub), 'quotients are off')
    c.equal(got[~fin].astype(q.dtype), np.full(int((~fin).sum()), 0. if d is None else d).astype(q.dtype), 'replaced quotients')
    c.trivial = q.size == 0


@workload(quick=5000)
def to_range(c):
    g = c.g
    dt = g.pick(['f8', 'f8', 'f8', 'f4', 'i8', 'i4', 'u1', 'i1', 'u2', 'i2'])
    shape = tuple(g.integer(1, 6) for _ in range(g.integer(1, 3)))
    if np.prod(shape) < 2:
        shape = (g.integer(2, 9),)
    dt_ = np.dtype(dt)
    if dt_.kind == 'f':
        a = (g.rng.normal(size=shape) * (g.scale(1e-6, 1e6) if g.chance(0.7) else g.scale(1e-20, 1e20)) + g.pick([0., 0., g.scale(1e-3, 1e3)])).astype(dt_)
    else:
        info = np.iinfo(dt_)
        a = g.rng.integers(max(info.min, -10 ** 9), min(info.max, 10 ** 9), size=shape, endpoint=True).astype(dt_)
        if g.chance(0.3):
            a = g.rng.integers(0, 5, size=shape).astype(dt_)
    lo, hi = a.min(), a.max()
    if lo == hi:
        a.flat[0] = 0 if lo != 0 else 1
        lo, hi = a.min(), a.max()
    r = g.pick([(0, 1), (0., 1.), (0, 255), (-1, 1), (5, 2), (float(g.rng.normal()), float(g.rng.normal()) + 3), (3., 3.), (1, 1000)])
    a = g.layout(a) if g.chance(0.4) else a
    c.input('a', a), c.input('range', r)
    c.bucket(dt, 'list' if False else 'array', 'reversed' if r[0] > r[1] else 'forward')
    a0 = a.copy()
    given = a.tolist() if dt in ('f8', 'i8') and g.chance(0.2) else a
    got = c.call(scale_to_range, given, r[0], r[1])
    c.equal(a, a0, 'the data after')
    A = a.astype(np.longdouble)
    lo, hi = np.longdouble(lo), np.longdouble(hi)
    want = r[0] + (np.longdouble(r[1]) - r[0]) * (A - lo) / (hi - lo)
    eps = float(np.finfo(np.float32 if dt == 'f4' else np.float64).eps)
    span = abs(r[0]) + abs(r[1])
    c.close(np.asarray(got), want, 8 * eps * span + 1e-300, 'scaled data')


@workload(quick=5000)
def reshape(c):
    g = c.g
    shape = tuple(g.integer(1, 5) for _ in range(g.integer(1, 3)))
    if g.chance(0.05):
        shape = (0, 3)
    A = g.rng.normal(size=shape)
    how = g.pick(['plain', 'transposed', 'strided', 'reversed', 'fortran', 'slice', 'readonly', 'broadcast'])
    if how == 'transposed':
        A = A.T
    elif how == 'strided':
        A = np.repeat(A, 2, axis=-1)[..., ::2]
    elif how == 'reversed':
        A = A[::-1]
    elif how == 'fortran':
        A = np.asfortranarray(A)
    elif how == 'slice':
        A = np.concatenate([A, A], axis=0)[:len(A)]
    elif how == 'broadcast':
        A = np.broadcast_to(A, (2,) + A.shape)
    elif how == 'readonly':
        A.flags.writeable = False
    n = A.size
    # a target shape: a factorization, possibly with -1, or one of the wrong size
    target, left = [], n
    for _ in range(g.integer(0, 2)):
        ds = [d for d in range(1, left + 1) if left % d == 0] if left else [1, 2]
        d = g.pick(ds)
        target.append(int(d))
        left //= d
    target.append(left)
    if g.chance(0.2) and n:
        target[g.integer(0, len(target) - 1)] = -1
    wrong = g.chance(0.1)
    if wrong:
        target = [n + g.integer(1, 3)]
    target = g.pick([tuple(target), list(target)]) if len(target) > 1 else g.pick([tuple(target), target[0]])
    warn = g.chance(0.4)
    c.input('A', A), c.input('strides', A.strides), c.input('target', target), c.input('just_warn', warn)
    A0, s0 = A.copy(), (A.shape, A.strides)
    try:
        ref = A.reshape(target)
    except ValueError:
        ref = None
    kw = g.pick([(), (warn,)]) if not warn else (warn,)
    if ref is None:
        c.bucket('wrong size')
        try:
            got = np_reshape_safe(A, target, *kw)
        except Exception:
            c.check(True, '')
        else:
            raise Violation('%s reshaped to %s gives %s' % (A.shape, target, got.shape))
        return
    shared = n == 0 or np.shares_memory(ref, A)
    c.bucket(how, 'view' if shared else 'needs a copy', 'warn' if warn else 'raise')
    with warnings.catch_warnings(record=True) as seen:
        warnings.simplefilter('always')
        if shared or warn:
            got = c.call(np_reshape_safe, A, target, *kw)
        else:
            got = None
            c.raises(Exception, np_reshape_safe, A, target, *kw)
    seen = [w for w in seen if not issubclass(w.category, DeprecationWarning)]
    c.check((A.shape, A.strides) == s0, 'the array itself was reshaped')
    c.equal(A, A0, 'the array after')
    if got is not None:
        c.equal(got, ref, 'reshaped')
        if n:
            c.check(np.shares_memory(got, A) == shared, 'copied' if shared else 'cannot share memory')
        if shared:
            c.check(not seen, 'warned without need: %s', [str(w.message) for w in seen])
        else:
            c.check(len(seen) >= 1, 'copied without a warning')
        if shared and n and A.flags.writeable:
            got.flat[0] = 1234.5
            c.check(np.count_nonzero(A == 1234.5) == 1, 'writing the view does not write the array')


@workload(quick=1500)
def freeze(c):
    g = c.g
    items = []
    for _ in range(g.size(0, 6)):
        items.append(g.pick([lambda: g.rng.normal(size=(g.integer(0, 3), 2)), lambda: None, lambda: [1, 2], lambda: 3.0,
                             lambda: np.zeros(4)[::2], lambda: np.arange(3), lambda: np.array(1.0), lambda: 'abc', lambda: np.float64(2)])())
    if items and g.chance(0.2):
        items.append(items[0])
    c.input('items', [repr(x) for x in items])
    other = np.zeros(3)
    before = [np.array(x, copy=True) if isinstance(x, np.ndarray) else x for x in items]
    form = g.pick(['list', 'tuple', 'generator'])
    c.bucket(form, '%d items' % min(len(items), 4))
    c.call(np_make_readonly, {'list': list(items), 'tuple': tuple(items), 'generator': (x for x in items)}[form])
    for x, y in zip(items, before):
        if isinstance(x, np.ndarray):
            c.check(not x.flags.writeable, 'an array is still writable')
            c.equal(x, y, 'frozen array')
            try:
                x[...] = 5
            except ValueError:
                pass
            else:
                raise Violation('a frozen array could be written')
        else:
            c.check(x is y or x == y, 'a non-array was changed')
    c.check(other.flags.writeable, 'another array was frozen')
    c.trivial = not items


OPS = [operator.add, operator.sub, operator.mul, operator.truediv, np.maximum, np.subtract, np.power, operator.gt]


@workload(quick=4000)
def expansion(c):
    g = c.g
    m, n = g.size(1, 8), g.size(1, 8)
    pair = g.pick(['row-col', 'col-row', 'full-row', 'row-full', 'full-col', 'col-full', 'same', 'neither'])
    A = {'row': (1, n), 'col': (m, 1), 'full': (m, n), 'same': (m, n)}
    if pair == 'same':
        sa = sb = (m, n)
    elif pair == 'neither':
        sa, sb = (m, n), (m + g.integer(1, 3), n + g.integer(1, 3))
        if 1 in sa + sb:
            sa, sb = (m + 1, n + 1), (m + 3, n + 4)
        if g.chance(0.5):
            sa, sb = sb, sa
    else:
        x, y = pair.split('-')
        sa, sb = A[x], A[y]
    a = g.rng.uniform(0.5, 3, size=sa)
    b = g.rng.uniform(0.5, 3, size=sb)
    if g.chance(0.4):
        a, b = g.layout(a), g.layout(b)
    op = g.pick(OPS)
    c.input('a', a), c.input('b', b), c.input('op', op.__name__)
    c.bucket(pair)
    a0, b0 = a.copy(), b.copy()
    if pair == 'neither':
        c.raises(Exception, bsxfun, op, a, b)
        return
    if (min(sa) == 1 or min(sb) == 1) and pair in ('full-row', 'row-full', 'full-col', 'col-full'):
        c.bucket('degenerate full')
    got = c.call(bsxfun, op, a, b)
    M, N = max(sa[0], sb[0]), max(sa[1], sb[1])
    want = np.array([[op(a[min(i, sa[0] - 1), min(j, sa[1] - 1)], b[min(i, sb[0] - 1), min(j, sb[1] - 1)]) for j in range(N)] for i in range(M)])
    c.check(np.shape(got) == want.shape, 'shape %s, expected %s', np.shape(got), want.shape)
    c.check(np.allclose(np.asarray(got, float), want.astype(float), rtol=1e-14, atol=0), 'expansion is wrong')
    c.equal(a, a0, 'a after'), c.equal(b, b0, 'b after')


@workload(quick=1500)
def rows_and_columns(c):
    g = c.g
    A = g.rng.normal(size=tuple(g.integer(0, 4) for _ in range(g.integer(1, 3))))
    if g.chance(0.5):
        A = g.layout(A) if A.size else A
    if g.chance(0.2):
        A = (A * 10).astype(g.pick(['i8', 'f4', 'u1']))
    c.input('A', A)
    flat = [x for x in A.flat]
    r, k = c.call(row, A), c.call(col, A)
    c.check(r.shape == (1, A.size) and k.shape == (A.size, 1), 'shapes %s %s', r.shape, k.shape)
    c.check(r.dtype == A.dtype and k.dtype == A.dtype, 'dtypes %s %s', r.dtype, k.dtype)
    c.equal(r[0], np.array(flat, A.dtype), 'row'), c.equal(k[:, 0], np.array(flat, A.dtype), 'col')
    c.bucket('%d-d' % A.ndim, 'empty' if not A.size else 'filled')
    c.trivial = A.size == 0


@workload(quick=3000)
def sparse_matrices(c):
    g = c.g
    m, n = g.size(1, 12), g.size(1, 12)
    shape = g.pick([(g.size(1, 25),), (g.size(1, 6), g.size(1, 6))])
    i, j = g.rng.integers(0, m, size=shape), g.rng.integers(0, n, size=shape)
    if g.chance(0.3):
        i, j = i.astype('i4'), j.astype('i4')
    if g.chance(0.3):
        i = np.asfortranarray(i)
    data = g.rng.normal(size=i.size)
    if g.chance(0.2):
        data = g.rng.integers(-4, 5, size=i.size)
    given = g.chance(0.6)
    c.input('i', i), c.input('j', j), c.input('data', data), c.input('shape', (m, n) if given else None)
    shaped = data.reshape(g.pick([data.shape, data.shape, shape, (-1, 1), (1, -1)]))
    if g.chance(0.2):
        shaped = np.asfortranarray(shaped)
    c.bucket('%d-d data' % shaped.ndim)
    got = c.call(sparse, i, j, shaped, m, n) if given else c.call(sparse, i, j, shaped)
    want = {}
    for a, b, d in zip(i.ravel().tolist(), j.ravel().tolist(), data.tolist()):
        want.setdefault((a, b), []).append(d)
    c.bucket('duplicates' if len(want) < i.size else 'distinct', 'shape given' if given else 'shape inferred')
    ms, ns = (m, n) if given else (int(i.max()) + 1, int(j.max()) + 1)
    D = np.zeros((ms, ns))
    S = np.zeros((ms, ns))
    for (a, b), ds in want.items():
        D[a, b] = float(sum(Fraction(d) for d in ds))
        S[a, b] = sum(abs(d) for d in ds)
    c.check(got.format == 'csc' and got.dtype.kind == data.dtype.kind, '%s %s', got.format, got.dtype)
    c.close(got.toarray(), D, 1e-14 * S, 'sparse matrix')
