"""C21: coercion and the numeric predicates against a reference that classifies the input from
how it was built (never by calling numpy's own tests on the result)."""
import datetime
import warnings
from decimal import Decimal
from fractions import Fraction

import numpy as np

from vmon.core import workload, Violation, Skip
from blmath.numerics.coercion import as_numeric_array
from blmath.numerics.predicates import isnumeric, isnumericscalar, isnumericarray, is_empty_arraylike

POISON = ['dates', 'time differences', 'bool', 'complex', 'string', 'nan', 'inf', '-inf', 'none', 'object']
ARRAY_DTYPES = ['f8', 'f8', 'f4', 'f2', 'i8', 'i4', 'i2', 'i1', 'u1', 'u2', 'u4', 'u8', '>f8', '>i4', 'longdouble']


def nested(flat, shape):
    it = iter(flat)

    def build(dims):
        return [build(dims[1:]) for _ in range(dims[0])] if dims else next(it)
    return build(list(shape))


def mixed(g, x, depth=0):
    """The same nesting with tuples, and arrays at some levels."""
    if not isinstance(x, list):
        return x
    y = [mixed(g, e, depth + 1) for e in x]
    r = g.rng.random()
    return tuple(y) if r < 0.25 else y


def values(g, n, dt):
    dt = np.dtype(dt)
    if dt.kind in 'iu':
        info = np.iinfo(dt)
        return [int(v) for v in g.rng.integers(info.min, info.max, size=n, dtype=dt.newbyteorder('='), endpoint=True)] if g.chance(0.5) else [int(v) for v in g.rng.integers(0, 5, size=n)]
    s = 10.0 ** g.integer(-3, 3)
    vs = [g.pick([0.0, -0.0, 1.0, float(g.rng.normal()) * s, float(g.rng.integers(-5, 5))]) for _ in range(n)]
    if dt.itemsize == 8 and g.chance(0.2):
        vs = [g.pick([1e308, -1e308, 5e-324, v]) for v in vs]
    return vs


def subject(c, poison_ok=True):
    """(object, shape, flat values as python numbers, dtype or None, poisoned by)"""
    g = c.g
    nd = g.pick([0, 1, 1, 1, 2, 2, 2, 3])
    shape = tuple(g.pick([g.integer(1, 4), 3, g.integer(0, 2)]) for _ in range(nd))
    if g.chance(0.05) and nd:
        shape = (g.size(1, 2000),) + shape[1:]
    n = int(np.prod(shape))
    poison = g.pick(POISON) if poison_ok and n and g.chance(0.35) else None
    form = g.pick(['array', 'array', 'lists', 'mixed', 'array of rows'])
    dt = np.dtype(g.pick(ARRAY_DTYPES))
    if form != 'array':
        dt = np.dtype(g.pick(['f8', 'i8']))
    flat = values(g, n, dt)
    if poison:
        k = g.pick([0, n - 1, g.integer(0, n - 1)])
        if poison == 'bool':
            flat = [bool(v) for v in flat]
            arr_dt = np.dtype(bool)
        elif poison in ('dates', 'time differences'):
            arr_dt = np.dtype(g.pick(['%s[s]', '%s[D]', '%s[ns]']) % ('M8' if poison == 'dates' else 'm8'))
            flat = list(np.array([g.integer(-9, 9) for _ in flat]).astype(arr_dt))
        else:
            flat = [float(v) for v in flat]
            flat[k] = {'complex': complex(1, g.pick([0, 2])), 'string': 'a', 'nan': float('nan'), 'inf': float('inf'), '-inf': -float('inf'),
                       'none': None, 'object': object()}[poison]
            arr_dt = {'complex': np.dtype('c16'), 'string': np.dtype('U8'), 'none': np.dtype(object), 'object': np.dtype(object)}.get(
                poison, dt if dt.kind == 'f' else np.dtype('f8'))
    else:
        arr_dt = dt
    with np.errstate(all='ignore'):
        arr = np.array(nested(flat, shape) if n else np.zeros(shape), dtype=arr_dt).reshape(shape)
    if form == 'array' or nd == 0 or n == 0:
        form = 'array'
        obj = g.layout(arr, whole=False) if nd and n and arr.dtype != object and g.chance(0.4) else arr
        if g.chance(0.3):
            obj = obj.copy() if obj is arr else obj
            obj.flags.writeable = False
    elif form == 'array of rows' and nd >= 2:
        obj = [row for row in arr]
    else:
        form = 'lists' if form == 'lists' else 'mixed'
        obj = nested(flat, shape)
        if form == 'mixed':
            obj = mixed(g, obj)
    return obj, shape, arr, poison, form


def same_values(c, got, arr, msg):
    c.check(isinstance(got, np.ndarray), '%s: not an array: %r', msg, got)
    c.check(got.shape == arr.shape, '%s: shape %s, expected %s', msg, got.shape, arr.shape)
    for x, y in zip(got.ravel().tolist(), arr.ravel().tolist()):
        if not (x == y):
            raise Violation('%s: %r became %r' % (msg, y, x))
    c.stats.assertions += 1


def pattern(c, shape):
    """(pattern, how it relates: as given / only transposed / neither)"""
    g = c.g
    kind = g.pick(['match', 'match', 'transposed', 'off', 'length', 'swap'])
    p = list(shape)
    if kind == 'transposed':
        p = p[::-1]
    elif kind == 'off' and p:
        i = g.integer(0, len(p) - 1)
        p[i] += g.pick([1, 2, -1 if p[i] > 1 else 1])
    elif kind == 'length':
        p = p + [1] if g.chance(0.5) or not p else p[:-1]
    elif kind == 'swap' and len(p) > 2:
        i = g.integer(0, len(p) - 2)
        p[i], p[i + 1] = p[i + 1], p[i]
    p = [-1 if g.chance(0.35) else d for d in p]

    def fits(s):
        return len(s) == len(p) and all(a == -1 or a == b for a, b in zip(p, s))
    rel = 'as given' if fits(shape) else 'transposed' if fits(shape[::-1]) else 'neither'
    return (tuple(p) if g.chance(0.7) else list(p)), rel


@workload(quick=8000)
def coerce(c):
    g = c.g
    obj, shape, arr, poison, form = subject(c)
    c.input('obj', arr if not poison else repr(obj)), c.input('form', form), c.input('poison', poison)
    kw = {}
    rel = 'as given'
    if g.chance(0.6):
        kw['shape'], rel = pattern(c, shape)
    if g.chance(0.3):
        kw['allow_none'] = g.chance(0.5)
    if g.chance(0.2):
        kw['empty_as_none'] = g.chance(0.7)
    c.input('kw', repr(kw))
    before = arr.copy()
    nothing = shape == (0,) and kw.get('allow_none') and kw.get('empty_as_none') and not poison
    c.bucket('poisoned by %s' % poison if poison else rel, form)
    with warnings.catch_warnings(record=True) as seen:
        warnings.simplefilter('always')
        if poison or (rel == 'neither' and not nothing):
            c.raises(ValueError, as_numeric_array, obj, **kw)
            return
        if g.chance(0.3):
            args = [kw[k] if k in kw else d for k, d in (('shape', None), ('allow_none', False), ('empty_as_none', False))]
            got = c.call(as_numeric_array, obj, *args)
        else:
            got = c.call(as_numeric_array, obj, **kw)
    if nothing:
        c.check(got is None, 'an empty array gives %r', got)
        return
    c.check(not [w for w in seen if issubclass(w.category, DeprecationWarning)], 'warned for valid input')
    want = arr.T if rel == 'transposed' else arr
    c.bucket('%d-d' % len(shape))
    same_values(c, got, want, 'coerced')
    if form == 'array':
        c.check(got.dtype == arr.dtype, 'dtype %s became %s', arr.dtype, got.dtype)
        if poison is None:
            c.equal(np.asarray(obj), before, 'the array given, after')
    c.trivial = arr.size == 0


@workload(quick=4000)
def with_type(c):
    """A requested data type: exact for representable values, and strictly of that type."""
    g = c.g
    obj, shape, arr, _, form = subject(c, poison_ok=False)
    dt = np.dtype(g.pick(['f8', 'f8', 'f4', 'i8', 'i4', 'u8', 'u4', 'i2', 'u1', 'longdouble']))
    small = g.rng.integers(0, 120, size=shape)
    if dt.kind == 'f' and g.chance(0.5):
        small = small / 8.0
    if g.chance(0.3) and dt.kind != 'u':
        small = -small
    src = g.pick(['f8', 'f4', 'i4', 'i8'] if small.dtype.kind == 'i' else ['f8', 'f4'])
    arr = small.astype(src)
    obj = arr if g.chance(0.6) or not arr.size else arr.tolist()
    kw = {'dtype': g.pick([dt, dt.type, dt.str]) if dt != np.longdouble else dt}
    rel = 'as given'
    if g.chance(0.5):
        kw['shape'], rel = pattern(c, shape)
    c.input('obj', arr), c.input('kw', repr(kw))
    c.bucket(dt.name, rel)
    if rel == 'neither':
        c.raises(ValueError, as_numeric_array, obj, **kw)
        return
    got = c.call(as_numeric_array, obj, **kw)
    same_values(c, got, arr.T if rel == 'transposed' else arr, 'coerced to %s' % dt)
    c.check(got.dtype == dt, 'dtype %s, expected %s', got.dtype, dt)
    c.trivial = arr.size == 0


NUMBERS = [Fraction(1, 3), Fraction(0), Fraction(-7, 2), Decimal('1.5'), Decimal(0), Decimal('-1e40'), 10 ** 400, 2 ** 64, -2 ** 70, 0, 1, 3.5, -0.0, np.float32(2), np.int8(-3)]
OTHERS = [float('nan'), float('inf'), -float('inf'), np.float64('nan'), True, False, np.bool_(False), 1j, complex(1, 0), np.complex64(2), None, 'a', b'1', '1',
          Decimal('NaN'), Decimal('Infinity'), Decimal('-Infinity'), Decimal('sNaN'), object(), np.timedelta64(1, 's'), np.datetime64('2020-01-01'), datetime.timedelta(1), datetime.date(2020, 1, 1)]


@workload(quick=2500)
def objects(c):
    """Arrays of Python numbers (integers too large for any machine type, fractions, decimals), one of them possibly not a finite real number."""
    g = c.g
    nd = g.pick([1, 1, 2, 2, 3])
    shape = tuple(g.pick([g.integer(1, 4), 3]) for _ in range(nd))
    n = int(np.prod(shape))
    # kinds that do not mix in arithmetic are allowed in one array: nothing is computed across
    kinds = g.pick([NUMBERS, NUMBERS, [x for x in NUMBERS if isinstance(x, (Fraction, int, float))], [x for x in NUMBERS if isinstance(x, int)]])
    flat = [g.pick(kinds) for _ in range(n)]
    bad = g.chance(0.4)
    if bad:
        flat[g.pick([0, n - 1, g.integer(0, n - 1)])] = g.pick(OTHERS)
    arr = np.empty(n, dtype=object)
    for i, x in enumerate(flat):
        arr[i] = x
    arr = arr.reshape(shape)
    obj = arr
    if g.chance(0.3):  # a list of these that numpy makes such an array of
        flat[g.integer(0, n - 1)] = 2 ** g.integer(65, 1200)
        obj = nested(flat, shape)
        bad = any(any(x is y for y in OTHERS) for x in flat)
        if bad and any(isinstance(x, (str, bytes)) for x in flat):
            raise Skip
        arr = np.array(obj)
        if arr.dtype != object:
            raise Skip
    elif g.chance(0.2):
        obj.flags.writeable = False
    c.input('obj', repr(obj)), c.input('bad', bad)
    c.bucket('one is not a finite real number' if bad else 'numbers', '%d-d' % nd, type(obj).__name__)
    c.check(bool(c.call(isnumeric, obj)) is not bad, 'isnumeric is %s', bad)
    c.check(bool(c.call(isnumericarray, obj)) is not bad, 'isnumericarray is %s', bad)
    c.check(not c.call(isnumericscalar, obj), 'isnumericscalar is true for an array')
    if bad:
        c.raises(ValueError, as_numeric_array, obj)
    else:
        same_values(c, c.call(as_numeric_array, obj), arr, 'coerced')


@workload(quick=800)
def nothing(c):
    g = c.g
    kw = {}
    if g.chance(0.5):
        kw['shape'] = g.pick([(3,), (-1, 3), None, ()])
    if g.chance(0.5):
        kw['dtype'] = g.pick([np.float64, 'f4', np.uint64, None])
    if g.chance(0.5):
        kw['empty_as_none'] = g.chance(0.5)
    allow = g.pick([None, False, True])
    if allow is not None:
        kw['allow_none'] = allow
    ragged = g.chance(0.3)
    what = [[1.0], [1.0, 2.0]] if ragged else None
    if ragged and g.chance(0.5):
        what = [1.0, [2.0, 3.0]]
    c.input('kw', repr(kw)), c.input('what', repr(what)), c.input('i', c.index % 50)
    c.bucket('ragged' if ragged else 'none', str(allow))
    if allow and not ragged:
        c.check(c.call(as_numeric_array, what, **kw) is None, 'None is not passed through')
    else:
        c.raises(ValueError, as_numeric_array, what, **kw)


SCALARS = [  # (value, numeric)
    (0, True), (1, True), (-3, True), (10 ** 30, True), (10 ** 400, True), (0.0, True), (-0.0, True), (1.5, True), (5e-324, True), (1.7e308, True),
    (np.float64(2), True), (np.float32(0), True), (np.float16(1), True), (np.int8(100), True), (np.int8(-128), True), (np.uint8(0), True),
    (np.int64(-2 ** 63), True), (np.uint64(2 ** 64 - 1), True), (np.longdouble(1.25), True), (Fraction(1, 3), True), (Decimal('1.5'), True), (Decimal(0), True),
    (Fraction(0), True), (Decimal('NaN'), False), (Decimal('sNaN'), False), (Decimal('Infinity'), False), (Decimal('-Infinity'), False), (True, False), (False, False), (np.bool_(True), False), (np.bool_(False), False), (1j, False), (complex(1, 0), False),
    (complex(0, 0), False), (np.complex128(1), False), (np.complex64(0), False), (None, False), (float('nan'), False), (float('inf'), False),
    (-float('inf'), False), (np.float64('nan'), False), (np.float32('inf'), False), (np.float64('-inf'), False), (object(), False),
    (np.timedelta64(3, 's'), False), (np.timedelta64(0, 'D'), False), (np.timedelta64('NaT'), False), (np.datetime64('2020-01-01'), False), (np.datetime64('NaT'), False),
    (datetime.timedelta(0), False), (datetime.timedelta(2), False), (datetime.datetime(2020, 1, 1), False), (Ellipsis, False), (int, False), (len, False), (NotImplemented, False)]
STRINGLIKE = ['', 'a', '1', '1.5', 'abc', b'1', b'']


@workload(quick=2000)
def scalars(c):
    g = c.g
    if g.chance(0.5):
        x, want = SCALARS[c.index % len(SCALARS)]
    elif g.chance(0.2):
        x, want = g.pick(STRINGLIKE), False
    else:
        x = float(g.rng.normal()) * 10.0 ** g.integer(-300, 300)
        x = g.pick([x, np.float64(x), int(x) if abs(x) < 1e15 else x, np.int32(g.integer(-2 ** 31, 2 ** 31 - 1))])
        want = True
    c.input('x', '%r %s' % (x, type(x).__name__))
    c.bucket(type(x).__name__)
    c.check(bool(c.call(isnumeric, x)) is want, 'isnumeric(%r) is %s', x, not want)
    c.check(bool(c.call(isnumericscalar, x)) is want, 'isnumericscalar(%r) is %s', x, not want)
    c.check(not c.call(isnumericarray, x), 'isnumericarray(%r) is true', x)
    c.check(bool(c.call(is_empty_arraylike, x)) is (x is None), 'is_empty_arraylike(%r)', x)


@workload(quick=6000)
def arrays(c):
    g = c.g
    obj, shape, arr, poison, form = subject(c)
    c.input('obj', arr if not poison else repr(obj)), c.input('form', form), c.input('poison', poison)
    c.bucket('poisoned by %s' % poison if poison else 'numeric', form)
    before = arr.copy()
    c.check(bool(c.call(isnumeric, obj)) is (poison is None), 'isnumeric is %s', poison is not None)
    c.check(bool(c.call(isnumericarray, obj)) is (poison is None), 'isnumericarray is %s', poison is not None)
    c.check(not c.call(isnumericscalar, obj), 'isnumericscalar is true for an array')
    if form == 'array':
        empty = arr.size == 0
    else:
        empty = False
    c.check(bool(c.call(is_empty_arraylike, obj)) is empty, 'is_empty_arraylike is %s for shape %s', not empty, shape)
    if form == 'array' and not poison:
        c.equal(np.asarray(obj), before, 'the array after')


@workload(quick=600)
def emptiness(c):
    g = c.g
    x, want = g.pick([(None, True), ([], True), ((), True), (np.array([]), True), (np.zeros((0, 3)), True), (np.zeros((3, 0)), True), (np.zeros((2, 0, 4), 'i4'), True),
                      ([[]], False), ([None], False), ((None,), False), ([0], False), ((0,), False), (np.zeros(1), False), (np.array(0.0), False), (0, False), (False, False),
                      ([[], []], False), (np.zeros((3, 4)), False), ([np.array([])], False), (np.array([False]), False), (np.zeros((1, 1)), False)])
    c.input('x', repr(x)), c.input('i', c.index % 3)
    c.check(bool(c.call(is_empty_arraylike, x)) is want, 'is_empty_arraylike(%r) is %s', x, not want)
    c.bucket(str(want))
