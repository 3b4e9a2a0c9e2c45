"""Values of every unit and of none, paired within a kind, across kinds, with bare numbers,
lists and wrong operands, under every operator in both positions; values equal up to the
last bit, zero, negative, infinite. Oracle: float arithmetic on the converted number, with the
factor checked against an independent unit table; operands re-read after every operation."""
import operator as op

import numpy as np
from blmath import units
from blmath.value import Value
from vmon import unitdefs as U
from vmon.core import workload, Violation

EPS = 2.3e-16
BAD = ['furlong', 'CM', 'values', 'cmm', 'x', '']


def number(g):
    r = g.rng.random()
    if r < 0.3:
        return float(g.integer(-12, 12))
    if r < 0.4:
        return g.pick([0., -0., 1., 0.5, 2.5, -1.5, 1e-120, 1e120, 100., 2.54, 30.48])
    if r < 0.5:  # decimal ties, most of them a hair off in binary
        return (g.integer(-1000, 1000) + 0.5) / 10. ** g.integer(0, 4)
    return g.number(1e-6, 1e6)


def make(c, kind=None, units_=0):
    g = c.g
    u = g.pick(U.NAMES + [None] * 4) if units_ == 0 else units_
    x = number(g)
    raw = g.pick([x, x, np.float64(x), int(x) if abs(x) < 1e9 else x])
    v = c.call(Value, raw, u) if u is not None or g.chance(0.5) else c.call(Value, raw)
    return v, float(raw), u


def state(v):
    return (v.value, v.units)


def same_value(c, got, x, u, tol, what):
    c.check(isinstance(got, Value), '%s gives %r, not a value', what, got)
    c.check(got.units == u, '%s is in %r, expected %r', what, got.units, u)
    c.check(isinstance(got.value, float), '%s holds %r', what, got.value)
    c.check(got.value == x or abs(got.value - x) <= tol, '%s is %r, expected %r', what, got.value, x)


def raises(c, types, what, fn, *args):
    try:
        r = fn(*args)
    except types:
        c.stats.assertions += 1
        return
    except Exception as e:
        raise Violation('%s raised %s instead of %s' % (what, type(e).__name__, types))
    raise Violation('%s gives %r instead of raising' % (what, r))


OPS = {'+': op.add, '-': op.sub, '/': op.truediv, '//': op.floordiv, '<': op.lt, '<=': op.le, '>': op.gt, '>=': op.ge, '==': op.eq, '!=': op.ne}


IOPS = {'+': op.iadd, '-': op.isub, '*': op.imul, '/': op.itruediv, '//': op.ifloordiv}


def assigned(c, a, b, o, what):
    """b may be a value, a number or a list: a o= b is the same as a o b, and whoever else holds
    the old operands sees no change."""
    keep = [state(q) if isinstance(q, Value) else q for q in (a, b)]
    want, got = c.call(OPS2[o], a, b), c.call(IOPS[o], a, b)
    c.check((state(want) if isinstance(want, Value) else want) == (state(got) if isinstance(got, Value) else got), '%s: %s= gives %r, %s gives %r', what, o, got, o, want)
    c.check([state(q) if isinstance(q, Value) else q for q in (a, b)] == keep, '%s: %s= changed an operand', what, o)


OPS2 = dict(OPS, **{'*': op.mul})


def check_pair(c, a, x, u, b, y, o, tolb, what):
    """a (x in u) o b, where b is worth y in u, up to tolb."""
    r = c.call(OPS[o], a, b)
    what = '%s %s %s' % (what[0], o, what[1])
    if o in '+-':
        want = x + y if o == '+' else x - y
        same_value(c, r, want, u, tolb + EPS * (abs(x) + abs(y)), what)
    elif o == '/':
        want = x / y
        return want, r, what
    elif o == '//':
        return x // y, r, what
    else:
        c.check(isinstance(r, (bool, np.bool_)), '%s gives %r', what, r)
        if abs(x - y) > tolb:
            c.check(bool(r) == OPS[o](x, y), '%s gives %r (%r against %r)', what, r, x, y)
    return None


@workload(quick=9000)
def two_values(c):
    g = c.g
    a, x, u = make(c)
    w = g.pick(U.of_kind(U.KIND[u])) if u is not None else None
    if g.chance(0.2):
        w = u
    b, y, _ = make(c, units_=w)
    if g.chance(0.3):  # the same quantity
        b = Value(x, u).convert(w)
        y = b.value
        if g.chance(0.5):  # or all but the same
            y = float(y * (1 + g.pick([1, -1]) * 10. ** g.rng.uniform(-15, -2)))
            b = Value(y, w)
    c.input('a', [x, u]), c.input('b', [y, w])
    c.bucket('no units' if u is None else 'same units' if u == w else 'converted')
    if u is None:
        f, t = 1., 0.
    else:
        f, t = units.factor(w, u), U.factor(w, u)
        c.check(abs(f - t[0]) <= t[1] * t[0], 'factor %s -> %s is %r', w, u, f)
    z = y * f if w != u else y
    tolb = 0. if w == u else 4 * EPS * abs(z)
    what = ('Value(%r, %r)' % (x, u), 'Value(%r, %r)' % (y, w))
    keep = state(a), state(b)
    for o in g.rng.permutation(list(OPS)):
        if o in '//' and z == 0:
            raises(c, Exception, '%s %s zero' % (what[0], o), OPS[o], a, b)
            continue
        if z == 0 and o in ('/', '//'):
            continue
        got = check_pair(c, a, x, u, b, z, o, tolb, what)
        if got is not None:
            want, r, w_ = got
            if o == '/':
                same_value(c, r, want, None, 8 * EPS * abs(want), w_)
            elif abs(x / z - round(x / z)) > 1e-9 * max(1, abs(x / z)):
                same_value(c, r, want, None, 0., w_)
            elif w == u:
                same_value(c, r, want, None, 0., w_)
        c.check((state(a), state(b)) == keep, '%s %s %s changed an operand', what[0], o, what[1])
    for o in '+-':
        assigned(c, a, b, o, '%s, %s' % what)
    if z:
        assigned(c, a, b, '/', '%s, %s' % what)
    lt, eq, gt = a < b, a == b, a > b
    c.check(int(lt) + int(eq) + int(gt) == 1, '%s, %s: <, ==, > are %s, %s, %s', what[0], what[1], lt, eq, gt)
    c.check((a <= b) == (lt or eq) and (a >= b) == (gt or eq) and (a != b) == (not eq), '%s, %s: order and equality disagree', *what)
    if w == u:
        c.check((b > a) == lt and (b == a) == eq and (b < a) == gt, '%s, %s: not symmetric', *what)
    raises(c, ValueError, '%s * %s' % what, op.mul, a, b)
    for f_, s in ((op.mod, '%'), (op.pow, '**')):
        raises(c, Exception, '%s %s %s' % (what[0], s, what[1]), f_, a, b)
    # a value whose number is changed is used with its new number, on either side
    q = g.pick([a, b])
    q.value = number(g) if g.chance(0.7) else -q.value
    f_ = f if w != u else 1.
    x, z = a.value, b.value * f_
    tolb = 0. if w == u else 4 * EPS * abs(z)
    what = ('Value(%r, %r)' % (x, u), 'Value(%r, %r) (changed)' % (b.value, w))
    for o in g.rng.permutation(['+', '-', '<', '<=', '>', '>=', '==', '!=']):
        check_pair(c, a, x, u, b, z, o, tolb, what)
    got = c.call(b.convert, u) if u is not None else None
    if got is not None:
        same_value(c, got, z, u, tolb, '%s converted to %s' % (what[1], u))


@workload(quick=4000)
def incompatible(c):
    g = c.g
    a, x, u = make(c)
    w = g.pick([n for n in U.NAMES + [None] if (u is None) != (n is None) or (n is not None and U.KIND[n] != U.KIND[u])])
    b, y, _ = make(c, units_=w)
    c.input('a', [x, u]), c.input('b', [y, w])
    keep = state(a), state(b)
    for o in OPS:
        raises(c, Exception, 'Value(%r, %r) %s Value(%r, %r)' % (x, u, o, y, w), OPS[o], a, b)
    raises(c, ValueError, 'product', op.mul, a, b)
    if w is not None and u is not None:
        raises(c, ValueError, 'sum', op.add, a, b)
        raises(c, ValueError, 'comparison', op.lt, a, b)
        raises(c, ValueError, 'conversion', a.convert, w)
        raises(c, ValueError, 'conversion', getattr, a, w)
    if u is None and w is not None:
        raises(c, ValueError, 'conversion', a.convert, w)
        raises(c, ValueError, 'conversion', getattr, a, w)
    if w is None and u is not None:
        raises(c, Exception, 'conversion to no units', a.convert, None)
    for o in IOPS:
        if o in '+-':
            raises(c, Exception, 'Value(%r, %r) %s= Value(%r, %r)' % (x, u, o, y, w), IOPS[o], a, b)
    c.check((state(a), state(b)) == keep, 'an operand changed')


@workload(quick=6000)
def with_numbers(c):
    g = c.g
    a, x, u = make(c)
    k = number(g)
    if g.chance(0.3):
        k = x
    k = g.pick([k, int(k)]) if abs(k) < 1e9 else k
    c.input('a', [x, u]), c.input('k', k)
    keep = state(a)
    w = 'Value(%r, %r) and %r' % (x, u, k)
    same_value(c, c.call(op.add, a, k), x + k, u, 0., w + ': sum')
    same_value(c, c.call(op.add, k, a), k + x, u, 0., w + ': sum, number first')
    same_value(c, c.call(op.sub, a, k), x - k, u, 0., w + ': difference')
    same_value(c, c.call(op.sub, k, a), k - x, u, 0., w + ': difference, number first')
    same_value(c, c.call(op.mul, a, k), x * k, u, 0., w + ': product')
    same_value(c, c.call(op.mul, k, a), x * k, u, 0., w + ': product, number first')
    if k:
        same_value(c, c.call(op.truediv, a, k), x / k, u, 0., w + ': quotient')
        same_value(c, c.call(op.floordiv, a, k), x // k, u, 0., w + ': floor quotient')
    for o in ('<', '<=', '>', '>=', '==', '!='):
        c.check(c.call(OPS[o], a, k) == OPS[o](x, k), '%s: %s', w, o)
        c.check(c.call(OPS[o], k, a) == OPS[o](k, x), '%s: %s, number first', w, o)
    for o in IOPS:
        if k or o not in ('/', '//'):
            assigned(c, a, k, o, w)
        if o not in ('/', '//'):
            assigned(c, k, a, o, w)
    for f, s in ((op.truediv, '/'), (op.floordiv, '//')):
        raises(c, ValueError, '%r %s a value' % (k, s), f, k, a)
    for f, s in ((op.mod, '%'), (op.pow, '**')):
        raises(c, Exception, w + ': ' + s, f, a, k)
        raises(c, Exception, w + ': %s, number first' % s, f, k, a)
    raises(c, Exception, 'divmod', divmod, a, k)
    c.check(state(a) == keep, 'the operand changed')
    n = g.size(0, 6)
    xs = [number(g) for _ in range(n)]
    bs = xs
    if u is not None and g.chance(0.5):
        bs = [Value(t, u) for t in xs]
    for f, s in ((op.add, '+'), (op.sub, '-')):
        r = c.call(f, a, list(bs))
        c.check(isinstance(r, list) and len(r) == n, '%s a list: %r', s, r)
        for t, q in zip(xs, r):
            same_value(c, q, f(x, t), u, 0., w + ': %s an element' % s)
    r = c.call(op.mul, a, xs if g.chance(0.5) else tuple(xs))
    for t, q in zip(xs, r):
        same_value(c, q, x * t, u, 0., w + ': * an element')
    c.check(len(r) == n, 'length of a product with a list')
    if n:
        r = c.call(op.mul, list(xs), a)
        for t, q in zip(xs, r):
            same_value(c, q, x * t, u, 0., w + ': element *')
        r = c.call(op.sub, list(bs), a)
        for t, q in zip(xs, r):
            same_value(c, q, t - x, u, 0., w + ': element -')
        if u is not None:  # elements in units of their own
            ms = [(t, g.pick(U.of_kind(U.KIND[u]))) for t in xs]
            for f, s in ((op.add, '+'), (op.sub, '-')):
                one = [f(Value(t, m), a) for t, m in ms]
                other = [f(a, Value(t, m)) for t, m in ms]
                for r, want, what in ((c.call(f, [Value(t, m) for t, m in ms], a), one, 'elements %s'), (c.call(f, a, [Value(t, m) for t, m in ms]), other, '%s elements')):
                    c.check(len(r) == n, 'length')
                    for (t, m), q, z in zip(ms, r, want):
                        if s == '+' and what[0] == 'e':  # a sum with the list first may be in either units
                            c.check(q.units in (u, m), 'sum in %r', q.units)
                            q = q.convert(z.units)
                        same_value(c, q, z.value, z.units, 8 * EPS * (abs(z.value) + abs(units.factor(u, z.units) * x) + abs(units.factor(m, z.units) * t)), w + ': ' + what % s)
        r = c.call(op.add, list(bs), a)
        for t, q in zip(xs, r):
            same_value(c, q, t + x, u, 0., w + ': element +')


@workload(quick=5000)
def one_value(c):
    g = c.g
    a, x, u = make(c)
    c.input('a', [x, u])
    keep = state(a)
    w = 'Value(%r, %r)' % (x, u)
    same_value(c, a, x, u, 0., w)
    same_value(c, c.call(op.neg, a), -x, u, 0., w + ': negation')
    same_value(c, c.call(op.pos, a), x, u, 0., w + ': plus')
    same_value(c, c.call(abs, a), abs(x), u, 0., w + ': absolute value')
    p = g.pick([0, 1, 2, 3, -1, -2, -3])
    same_value(c, c.call(round, a, p), round(x, p), u, 0., w + ': round to %d places' % p)
    same_value(c, c.call(round, a), round(x), u, 0., w + ': round')
    inc = g.pick([0.5, 0.25, 0.1, 0.05, 1., 2., 5.])
    if abs(x) < 1e9 and (abs(x) > 1e-9 or x == 0):
        r = c.call(a.round, inc)
        same_value(c, r, round(x / inc) * inc, u, 4 * EPS * (abs(x) + inc), w + ': to the nearest %g' % inc)
        c.check(abs(r.value - x) <= inc / 2 * (1 + 1e-9) + 1e-14 * abs(x), w + ': to the nearest')
    c.check(c.call(float, a) == x and c.call(int, a) == int(x), '%s: float / int', w)
    c.check(c.call(bool, a) is bool(x), '%s: truth', w)
    c.check(a[0] == x and a[1] == u, '%s: by index', w)
    raises(c, Exception, 'third item', op.getitem, a, 2)
    c.check(str(a) == '%f %s' % (x, u), '%s: %s', w, str(a))
    c.check(str(a) in repr(a), '%s: shown as %r', w, a)
    if u is not None:
        t = g.pick(U.of_kind(U.KIND[u]))
        f = units.factor(u, t)
        d = U.factor(u, t)
        c.check(abs(f - d[0]) <= d[1] * d[0], 'factor %s -> %s is %r', u, t, f)
        tol = 2 * EPS * abs(x * f)
        same_value(c, c.call(a.convert, t), x * f, t, tol, w + ' in %s' % t)
        same_value(c, c.get(a, t), x * f, t, tol, w + '.%s' % t)
        system = g.pick(sorted(U.SYSTEMS))
        t = U.SYSTEMS[system][U.KIND[u]]
        f = units.factor(u, t)
        same_value(c, c.call(a.convert_to_system_default, system), x * f, t, 2 * EPS * abs(x * f), w + ' in %s units' % system)
        if abs(x) < 1e9:
            c.check(c.get(a, 'prettified') == units.prettify(x, u), '%s: pretty form %r', w, a.prettified)
    else:
        same_value(c, c.call(a.convert, None), x, None, 0., w + ' converted to no units')
    c.check(state(a) == keep, '%s changed', w)
    for bad in (g.pick(BAD), 'nothing'):
        raises(c, AttributeError, '%s.%s' % (w, bad), getattr, a, bad or 'none_such')
    y = number(g)
    a.value = y
    c.check(float(a) == y and a.units == u and bool(a) is bool(y), 'after setting the number')
    raises(c, Exception, 'value = None', setattr, a, 'value', None)
    raises(c, Exception, 'value = text', setattr, a, 'value', 'tall')
    c.check(float(a) == y, 'a refused number was kept')
    if u is not None:
        if abs(y) < 1e9:
            c.check(c.get(a, 'prettified') == units.prettify(y, u), 'pretty form after setting the number: %r', a.prettified)
        t = c.input('units set', g.pick(U.NAMES))
        a.units = t
        c.check(a.units == t and a[1] == t and float(a) == y, 'after setting the units')
        if abs(y) < 1e9:
            c.check(c.get(a, 'prettified') == units.prettify(y, t), 'pretty form after setting the units: %r', a.prettified)
        to = g.pick(U.of_kind(U.KIND[t]))
        f = units.factor(t, to)
        same_value(c, c.call(a.convert, to), y * f, to, 2 * EPS * abs(y * f), 'converted after setting the units')


@workload(quick=1500)
def refused(c):
    g = c.g
    u = g.pick(U.NAMES + [None])
    c.input('units', u)
    bad = g.pick([None, 'abc', [1., 2.], {}, 1j, object(), '', (3,), np.array([1., 2.]), 'None', '1 cm'])
    c.input('bad', repr(bad)[:40])
    if bad is None:
        raises(c, ValueError, 'Value(None)', Value, None, u)
    raises(c, Exception, 'Value(%r)' % (bad,), Value, bad, u)
    n = g.pick([b for b in BAD])
    x = number(g)
    c.input('x', x), c.input('n', n)
    raises(c, ValueError, 'Value(%r, %r)' % (x, n), Value, x, n)


@workload(quick=1500)
def not_finite(c):
    """Comparisons and sums with infinities and not-a-number follow the numbers."""
    g = c.g
    u = g.pick(U.NAMES + [None])
    w = g.pick([u, g.pick(U.of_kind(U.KIND[u]))]) if u is not None else None
    odd = [float('nan'), float('inf'), float('-inf')]
    x = g.pick(odd + [number(g)])
    y = g.pick(odd + ([number(g)] if x != x or abs(x) == odd[1] else []))
    c.input('a', [x, u]), c.input('b', [y, w])
    a, b = c.call(Value, x, u), c.call(Value, y, w)
    k = y
    for o in ('<', '<=', '>', '>=', '==', '!='):
        want = OPS[o](x, y)
        c.check(bool(c.call(OPS[o], a, b)) == want, 'Value(%r, %r) %s Value(%r, %r) is %s', x, u, o, y, w, not want)
        c.check(bool(c.call(OPS[o], a, k)) == want, 'Value(%r, %r) %s %r is %s', x, u, o, k, not want)
        c.check(bool(c.call(OPS[o], k, a)) == OPS[o](k, x), '%r %s Value(%r, %r) is %s', k, o, x, u, not OPS[o](k, x))
    for f in (op.add, op.sub):
        want = f(x, y)
        for q in (b, k):
            r = c.call(f, a, q)
            c.check(isinstance(r, Value) and r.units == u and (r.value == want or (want != want and r.value != r.value)), '%s of %r and %r is %r', f.__name__, x, y, r)
    c.check(bool(a) is bool(x), 'truth of %r', x)
    c.check(repr(float(a)) == repr(x) and repr(float(-a)) == repr(-x) and repr(float(abs(a))) == repr(abs(x)), 'number, negation or absolute value of %r', x)
