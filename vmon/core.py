"""Cases, workloads and the oracle-side helpers."""
import hashlib
import os
import struct
import zlib

import numpy as np

REPO = os.environ.get('VMON_REPO', '/repo')


class Violation(Exception):
    pass


class Skip(Exception):
    """The generated input falls outside the property's domain."""


class Workload(object):
    def __init__(self, fn, quick, mult):
        self.fn, self.name, self.quick, self.mult = fn, fn.__name__, quick, mult

    def count(self, tier):
        n = self.quick * (4 * self.mult if tier == 'thorough' else 8)
        return max(1, int(n * float(os.environ.get('VMON_SCALE', '1'))))


def workload(quick, mult=25):
    def deco(fn):
        return Workload(fn, quick, mult)
    return deco


def workloads_of(module):
    return [w for w in vars(module).values() if isinstance(w, Workload)]


def _feed(h, x):
    if isinstance(x, np.ndarray):
        h.update(str((x.shape, x.dtype.str)).encode())
        h.update(np.ascontiguousarray(x).tobytes() if x.dtype != object else repr(x.tolist()).encode())
    elif isinstance(x, (list, tuple)):
        h.update(b'[')
        for y in x:
            _feed(h, y)
    elif isinstance(x, float):
        h.update(struct.pack('d', x))
    else:
        h.update(repr(x).encode())


def show(x, limit=240):
    if isinstance(x, np.ndarray):
        if x.size <= limit:
            return {'shape': list(x.shape), 'dtype': str(x.dtype), 'data': repr(x.tolist())}
        return {'shape': list(x.shape), 'dtype': str(x.dtype), 'head': repr(x.ravel()[:12].tolist())}
    r = repr(x)
    return r if len(r) < 4000 else r[:4000] + '...'


class Stats(object):
    def __init__(self):
        self.evaluations = 0
        self.assertions = 0
        self.skipped = 0
        self.hashes = set()
        self.buckets = {}
        self.calls = {}
        self.samples = []

    def merge(self, o):
        self.evaluations += o.evaluations
        self.assertions += o.assertions
        self.skipped += o.skipped
        self.hashes |= o.hashes
        for mine, theirs in ((self.buckets, o.buckets), (self.calls, o.calls)):
            for k, v in theirs.items():
                mine[k] = mine.get(k, 0) + v
        self.samples += o.samples


def numpys_fit(fn):
    """Not where Python's own types are asked for."""
    m = getattr(fn, '__module__', None) or ''
    return m.startswith('blmath') and m not in ('blmath.geometry.segment', 'blmath.util.json')


def numpys(a):
    if isinstance(a, bool):
        return np.bool_(a)
    if type(a) is int and abs(a) < 2 ** 31:
        return np.int64(a)
    return a


class Case(object):
    def __init__(self, prop, wname, seed, index, tier, stats):
        self.prop, self.wname, self.seed, self.index, self.tier = prop, wname, seed, index, tier
        self.stats = stats
        self.rng = np.random.default_rng([seed, int(prop[1:]), zlib.crc32(wname.encode()), index])
        from vmon.gen import Gen
        self.g = Gen(self.rng)
        self.inputs = {}
        self._h = hashlib.blake2b(digest_size=8)
        self.trivial = False
        self.thorough = tier == 'thorough'

    # -- inputs
    def input(self, name, value):
        """Record an input (witness, evidence, distinctness) and return it."""
        _feed(self._h, name)
        _feed(self._h, value)
        self.inputs[name] = show(value)
        return value

    def digest(self):
        return self._h.digest()

    def bucket(self, *names):
        for n in names:
            k = '%s/%s' % (self.wname, n)
            self.stats.buckets[k] = self.stats.buckets.get(k, 0) + 1

    # -- events
    def call(self, fn, *args, **kwargs):
        name = getattr(fn, '__qualname__', None) or type(fn).__qualname__
        self.stats.calls[name] = self.stats.calls.get(name, 0) + 1
        if numpys_fit(fn) and self.rng.random() < 0.15:
            # numpy's integers and booleans where a caller's own would do
            args = tuple(numpys(a) for a in args)
            kwargs = {k: numpys(a) for k, a in kwargs.items()}
        try:
            return fn(*args, **kwargs)
        except Exception as e:  # the property says this input is fine
            raise Violation('%s raised %s: %s' % (name, type(e).__name__, str(e)[:300]))

    def get(self, obj, attr):
        name = '%s.%s' % (type(obj).__name__, attr)
        self.stats.calls[name] = self.stats.calls.get(name, 0) + 1
        try:
            return getattr(obj, attr)
        except Exception as e:
            raise Violation('reading %s raised %s: %s' % (name, type(e).__name__, str(e)[:300]))

    def raises(self, types, fn, *args, **kwargs):
        name = getattr(fn, '__qualname__', None) or type(fn).__qualname__
        self.stats.calls[name] = self.stats.calls.get(name, 0) + 1
        self.stats.assertions += 1
        try:
            r = fn(*args, **kwargs)
        except types as e:
            return e
        except Exception as e:
            raise Violation('%s should be refused with %s, but raised %s: %s' % (name, types, type(e).__name__, str(e)[:200]))
        raise Violation('%s should be refused with %s, but returned %s' % (name, types, repr(r)[:200]))

    # -- oracles
    def check(self, cond, msg, *args):
        self.stats.assertions += 1
        if not cond:
            raise Violation(msg % args if args else msg)

    def equal(self, got, want, msg):
        """Exactly equal values and shape (NaN equals NaN)."""
        self.stats.assertions += 1
        got, want = np.asarray(got), np.asarray(want)
        if got.shape != want.shape:
            raise Violation('%s: shape %s, expected %s' % (msg, got.shape, want.shape))
        same = got == want
        if got.dtype.kind in 'fc' and want.dtype.kind in 'fc':
            same = same | (np.isnan(got) & np.isnan(want))
        if not np.all(same):
            raise Violation('%s: got %s, expected %s' % (msg, _brief(got), _brief(want)))

    def close(self, got, want, tol, msg):
        """|got - want| <= tol elementwise, same shape."""
        self.stats.assertions += 1
        got = np.asarray(got)
        want = np.asarray(want)
        if got.shape != want.shape:
            raise Violation('%s: shape %s, expected %s' % (msg, got.shape, want.shape))
        if got.dtype.kind not in 'fiub':
            raise Violation('%s: result has dtype %s' % (msg, got.dtype))
        err = np.abs(got.astype(np.longdouble) - want)
        if not np.all(err <= tol):
            worst = float(np.nanmax(err)) if err.size and not np.all(np.isnan(err)) else float('nan')
            raise Violation('%s: off by %g (allowed %g): got %s, expected %s' % (
                msg, worst, float(np.max(tol)), _brief(got), _brief(want)))


def _brief(a):
    a = np.asarray(a)
    if a.size <= 16:
        return repr(a.tolist())
    return 'array%s%s...' % (a.shape, a.ravel()[:8].tolist())
