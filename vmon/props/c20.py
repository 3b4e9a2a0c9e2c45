"""Random documents (depth to 8, up to 3000 nodes; unicode strings, keys that look like the
annotations, integers to 2**60, floats of every exponent) with values of every unit at any
depth, through strings, text files on disk and StringIO, with and without formatting options;
annotated arrays of 0..3 dimensions in every data type and sparse matrices in every format.
Oracle: structural comparison with the original, floats bit for bit."""
import io
import os
import struct
import tempfile

import numpy as np
import scipy.sparse as sp
import simplejson
from blmath.util import json
from blmath.value import Value
from vmon import unitdefs as U
from vmon.core import workload


def bits(x):
    return struct.pack('d', x)


def any_float(g):
    k = g.integer(0, 5)
    if k == 0:
        return g.number()
    if k == 1:
        return g.pick([0., -0., 5e-324, 1.7976931348623157e308, 0.1, 1 / 3., 1e22, 123456789.123456789, 2. ** 53])
    if k == 2:
        return float(np.frombuffer(struct.pack('Q', (g.integer(0, 2046) << 52) | g.integer(0, 2**52 - 1) | (g.integer(0, 1) << 63)), dtype=float)[0])
    if k == 3:
        return float(g.integer(-10**6, 10**6)) / g.pick([7, 10, 100, 1000])
    return float(g.rng.normal())


def text(g):
    return g.pick(['', 'a', 'name', 'x y', 'é', '日本', '"quoted"', '\\', '\n\t', '\u2028', '\U0001f600', 'null', '1.5', '__value__', 'cm', '</script>']) + g.pick(['', '', str(g.integer(0, 99))])


KEYS = ['value', 'units', 'data', 'dtype', 'shape', '__value', 'value__', '__ndarray', 'row', 'col', 'format', '__array__', '__value__s', '__value__2', '_value_', '__VALUE__', '__ndarray__s', 'my__value__', '__scipy.sparse.sparsematrix__s']


def document(g, depth, budget):
    budget[0] -= 1
    r = g.rng.random()
    if depth > 0 and budget[0] > 0 and r < 0.45:
        n = g.size(0, 8)
        if g.chance(0.5):
            items = [document(g, depth - 1, budget) for _ in range(n)]
            return tuple(items) if g.chance(0.2) else items
        d = {}
        for _ in range(n):
            d[g.pick(KEYS) if g.chance(0.2) else text(g) + 'k'] = document(g, depth - 1, budget)
        return d
    if r < 0.7:
        u = g.pick(U.NAMES + [None, None])
        x = g.pick([any_float(g), g.integer(-100, 100)])
        return Value(x, u)
    return g.pick([None, True, False, any_float(g), any_float(g), g.integer(-2**60, 2**60), g.integer(-9, 9), text(g), [], {}])


def has_value(x):
    return isinstance(x, Value) or isinstance(x, (list, tuple)) and any(map(has_value, x)) or isinstance(x, dict) and any(map(has_value, x.values()))


def same(c, a, b, path):
    if isinstance(a, Value):
        c.check(isinstance(b, Value), '%s: a value came back as %r', path, b)
        c.check(bits(a.value) == bits(b.value), '%s: %r came back as %r', path, a.value, b.value)
        c.check(a.units == b.units, '%s: units %r came back as %r', path, a.units, b.units)
    elif isinstance(a, dict):
        c.check(type(b) is dict and list(a) == list(b) or type(b) is dict and set(a) == set(b), '%s: %r came back as %r', path, sorted(a), b)
        for k in a:
            same(c, a[k], b[k], path + '.' + k)
    elif isinstance(a, (list, tuple)):
        c.check(type(b) is list and len(a) == len(b), '%s: a list of %d came back as %r', path, len(a), type(b))
        for i, (p, q) in enumerate(zip(a, b)):
            same(c, p, q, path + '[%d]' % i)
    elif isinstance(a, float):
        c.check(isinstance(b, float) and bits(a) == bits(b), '%s: %r came back as %r', path, a, b)
    else:
        c.check(type(a) is type(b) and a == b, '%s: %r came back as %r', path, a, b)


def asked(c, s, kw):
    """The text is laid out as the options ask: writing what it holds with them gives it again."""
    if kw:
        c.check(s == simplejson.dumps(simplejson.loads(s), **kw), 'the text is not as %s asks', kw)


def through(c, doc):
    """Write and read back by some route."""
    g = c.g
    kw = {}
    if g.chance(0.4):
        kw = g.pick([{'indent': 2}, {'sort_keys': True}, {'separators': (',', ':')}, {'ensure_ascii': False}, {'indent': '\t', 'sort_keys': True}])
    route = g.pick(['string', 'string', 'StringIO', 'file', 'mixed'])
    c.bucket(route)
    if route == 'string':
        s = c.call(json.dumps, doc, **kw)
        c.check(isinstance(s, str), 'dumps gives %r', type(s))
        asked(c, s, kw)
        return c.call(json.loads, s)
    if route == 'StringIO':
        f = io.StringIO()
        c.call(json.dump, doc, f, **kw)
        f.seek(0)
        return c.call(json.load, f)
    if route == 'mixed':
        f = io.StringIO()
        c.call(json.dump, doc, f, **kw)
        asked(c, f.getvalue(), kw)
        return c.call(json.loads, f.getvalue())
    fd, name = tempfile.mkstemp(prefix='vmon_', suffix='.json')
    os.close(fd)
    try:
        with io.open(name, 'w', encoding='utf-8') as f:
            c.call(json.dump, doc, f, **kw)
        with io.open(name, encoding='utf-8') as f:
            return c.call(json.load, f)
    finally:
        os.unlink(name)


@workload(quick=5000)
def documents(c):
    g = c.g
    doc = document(g, g.integer(0, 8), [g.pick([10, 60, 60, 3000 if g.chance(0.05) else 100])])
    c.input('document', repr(doc))
    c.trivial = not has_value(doc)
    got = through(c, doc)
    same(c, doc, got, 'document')


@workload(quick=2000)
def values(c):
    g = c.g
    x, u = any_float(g), g.pick(U.NAMES + [None])
    c.input('value', [x, u])
    v = Value(x, u)
    same(c, v, through(c, v), 'value')
    same(c, v, c.call(Value.from_json, c.call(v.for_json)), 'value')
    if u is None:
        same(c, v, c.call(json.loads, '{"__value__": {"value": %r}}' % x), 'value')
    s = '{"__value__": {"value": %r, "units": %s}}' % (x, 'null' if u is None else '"%s"' % u)
    same(c, v, c.call(json.loads, s), 'value')
    same(c, [v, {'k': v}], c.call(json.loads, '[%s, {"k": %s}]' % (s, s)), 'document')
    n = g.integer(-10 ** 6, 10 ** 6)  # the reader's options
    t = '{"n": %d, "v": %s}' % (n, s)
    for got in (c.call(json.loads, t, parse_int=str), c.call(json.load, io.StringIO(t), parse_int=str)):
        c.check(got['n'] == str(n), 'parse_int=str reads %r as %r', n, got['n'])
        same(c, v, got['v'], 'value beside it')


DTYPES = ['float64', 'float32', 'float16', 'int64', 'int32', 'uint8', 'uint32', 'bool', 'int8', 'uint64', 'int64', '<f8', '>i4']


def array(g, dtype, shape):
    k = np.dtype(dtype).kind
    if k == 'f':
        return (np.array([any_float(g) if dtype == 'float64' else g.number(1e-2, 1e2) for _ in range(int(np.prod(shape)))], dtype=dtype)).reshape(shape)
    if k == 'b':
        return g.rng.integers(0, 2, shape).astype(bool)
    t = np.iinfo(np.dtype(dtype))
    if g.chance(0.4):  # every integer the type holds
        a = g.rng.integers(t.min, t.max, shape, dtype=np.dtype(dtype).newbyteorder('='), endpoint=True).astype(dtype)
        if a.size and g.chance(0.5):
            a.flat[g.integer(0, a.size - 1)] = g.pick([t.min, t.max, t.max - 1])
        return a
    return g.rng.integers(0 if k == 'u' else -100, 100, shape).astype(dtype)


def embed(g, x):
    """Put an annotated item somewhere inside a document; and how to find it again."""
    k = g.integer(0, 3)
    if k == 0:
        return x, lambda d: d
    if k == 1:
        return [1, x, None], lambda d: d[1]
    if k == 2:
        return {'a': {'b': [x]}}, lambda d: d['a']['b'][0]
    return {'__ndarray': x, 'v': Value(2, 'cm')}, lambda d: d['__ndarray']


@workload(quick=3000)
def arrays(c):
    g = c.g
    shape = tuple(int(g.size(0, 6)) for _ in range(g.integer(0, 3)))
    if g.chance(0.01):
        shape = (g.count(1, 100, 20000, 0.7),)
    stated = g.chance(0.7)
    dt = g.pick(DTYPES) if stated else 'float64'
    a = array(g, dt, shape)
    if 0 in shape and len(shape) > 1:
        shape = (0,)
        a = a.reshape(shape)
    c.input('array', a), c.input('stated', stated)
    note = {'__ndarray__': a.tolist()}
    if stated:
        note['dtype'] = dt
    elif g.chance(0.5):
        a = np.round(np.clip(a, -1e9, 1e9))
        note = {'__ndarray__': a.astype(int).tolist()}
    if g.chance(0.3):
        note = dict(shape=list(shape), **note)
    doc, find = embed(g, note)
    got = find(through(c, doc))
    c.check(isinstance(got, np.ndarray), 'an annotated array decodes to %r', type(got))
    c.check(got.dtype == np.dtype(dt) and got.shape == shape, 'decodes to %s %s, stated %s %s', got.dtype, got.shape, dt, shape)
    c.equal(got, a, 'entries')
    if dt == 'float64' and stated:
        c.check(got.tobytes() == a.tobytes(), 'not bit for bit')


@workload(quick=3000)
def matrices(c):
    g = c.g
    shape = (g.size(1, 12), g.size(1, 12))
    n = g.size(0, 30)
    dt = g.pick(['float64', 'float32', 'int64', 'int32', 'uint8'])
    row, col = g.rng.integers(0, shape[0], n), g.rng.integers(0, shape[1], n)
    if g.chance(0.5):
        at = np.unique(row * shape[1] + col)
        row, col = at // shape[1], at % shape[1]
        p = g.rng.permutation(len(at))
        row, col = row[p], col[p]
        n = len(at)
    data = np.array([float(g.integer(1, 12)) for _ in range(n)]) if dt != 'float64' else np.array([any_float(g) if abs(any_float(g)) < 1e200 else 1.5 for _ in range(n)])
    data = np.clip(data, -1e250, 1e250).astype(dt)
    fmt = g.pick(['csr', 'csc', 'coo', 'lil', 'dok', 'csr', 'csc'])
    note = {'__scipy.sparse.sparsematrix__': True, 'dtype': dt, 'shape': list(shape), 'format': fmt,
            'data': data.tolist(), 'row': row.tolist(), 'col': col.tolist()}
    c.input('annotation', repr(note))
    doc, find = embed(g, note)
    got = find(through(c, doc))
    c.check(sp.issparse(got), 'an annotated sparse matrix decodes to %r', type(got))
    c.check(got.format == fmt and got.shape == shape and got.dtype == np.dtype(dt), 'decodes to %s %s %s, stated %s %s %s', got.format, got.shape, got.dtype, fmt, shape, dt)
    want = np.zeros(shape, dtype=dt)
    with np.errstate(over='ignore'):
        np.add.at(want, (row, col), data)
    s = np.zeros(shape)
    np.add.at(s, (row, col), np.abs(data.astype(float)))
    c.close(got.toarray().astype(float), want.astype(float), 1e-15 * 4 * s if dt == 'float64' else 1e-6 * s if dt == 'float32' else 0., 'entries')
    miss = g.pick([k for k in note if not k.startswith('__')])
    part = dict(note)
    del part[miss]
    doc, find = embed(g, part)
    back = find(through(c, doc))
    c.check(type(back) is dict, 'an annotation without %s decodes to %r', miss, type(back))
    same(c, part, back, 'incomplete annotation')
