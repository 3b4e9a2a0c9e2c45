"""Input generators. Steer only; the oracles never look at how an input was made."""
import glob
import os
import types

import numpy as np

from vmon.core import REPO

_consts = None


def constants():
    """Every int / float constant in the bytecode of the current blmath tree."""
    global _consts
    if _consts is None:
        ints, floats = set(), set()

        def walk(code):
            for k in code.co_consts:
                if isinstance(k, types.CodeType):
                    walk(k)
                else:
                    add(k)

        def add(k):
            if isinstance(k, bool):
                return
            if isinstance(k, int) and 2 <= abs(k) <= 10**7:
                ints.add(abs(k))
            elif isinstance(k, float) and np.isfinite(k) and k != 0:
                floats.add(abs(k))
            elif isinstance(k, (tuple, frozenset)):
                for x in k:
                    add(x)
        for f in sorted(glob.glob(REPO + '/blmath/**/*.py', recursive=True)):
            if os.path.basename(f).startswith('test_'):
                continue
            try:
                walk(compile(open(f).read(), f, 'exec'))
            except Exception:
                pass
        _consts = sorted(ints), sorted(floats)
    return _consts


class Gen(object):
    def __init__(self, rng):
        self.rng = rng

    def chance(self, p):
        return self.rng.random() < p

    def pick(self, seq):
        return seq[int(self.rng.integers(len(seq)))]

    def size(self, lo, hi):
        """An int in [lo, hi]: mostly log-uniform; sometimes an edge or a program constant +-1."""
        r = self.rng.random()
        if r < 0.12:
            ks = [k + d for k in constants()[0] for d in (-1, 0, 1) if lo <= k + d <= hi]
            if ks:
                return int(self.pick(ks))
        if r < 0.17:
            return int(lo)
        if r < 0.19:
            return int(hi)
        a, b = np.log(lo + 1), np.log(hi + 2)
        return int(min(hi, max(lo, np.floor(np.exp(self.rng.uniform(a, b)) - 1))))

    def count(self, lo, usual, rare, p=0.01):
        """size(lo, usual), but with probability p something towards rare: block sizes, index types."""
        if not self.chance(p):
            return self.size(lo, usual)
        if self.chance(0.5):
            n = self.edge(rare)
            if n is not None and n >= lo:
                return n
        return self.size(min(rare, max(lo, rare // 20)), rare)

    def edge(self, hi):
        """A multiple of a program constant (or of a power of two) up to hi, +-1; None if there is none."""
        ks = [k for k in constants()[0] if 60 <= k <= hi]
        k = self.pick(ks) if ks and self.chance(0.8) else 2 ** self.integer(6, 16)
        if k > hi:
            return None
        return int(min(hi, k * self.integer(1, min(8, hi // k)) + self.integer(-1, 1)))

    def sign(self):
        return self.pick([1., -1.])

    def truth(self, x):
        """A boolean option in one of the forms callers have it in."""
        return self.pick([bool(x), bool(x), np.bool_(x), int(x)])

    def index(self, k):
        """An integer argument in one of the forms callers have it in."""
        return self.pick([int(k), int(k), np.int64(k), np.int32(k) if abs(k) < 2 ** 31 else np.int64(k), np.intp(k)])

    def integer(self, lo, hi):
        return int(self.rng.integers(lo, hi + 1))

    def scale(self, lo=1e-3, hi=1e3):
        r = self.rng.random()
        if r < 0.3:
            return 1.0
        if r < 0.4:
            ks = [k for k in constants()[1] + [float(i) for i in constants()[0]] if lo <= k <= hi]
            if ks:
                return float(self.pick(ks))
        return float(np.exp(self.rng.uniform(np.log(lo), np.log(hi))))

    def unit(self):
        """A factor for the whole scene, as if it were given in other units: exact, so that a
        computation which is the same in all units gives the same digits."""
        return 1. if self.chance(0.7) else 2. ** self.integer(-36, 28)

    def number(self, lo=1e-3, hi=1e3):
        r = self.rng.random()
        if r < 0.1:
            return 0.0
        if r < 0.3:
            return float(self.rng.integers(-20, 21))
        if r < 0.4:
            return float(self.rng.integers(-40, 41)) / self.pick([2, 4, 8, 10, 3])
        s = 1 if self.chance(0.5) else -1
        if r < 0.5:
            ks = constants()[1] + [float(i) for i in constants()[0]]
            ks = [k for k in ks if lo <= k <= hi]
            if ks:
                return s * float(self.pick(ks))
        return s * float(np.exp(self.rng.uniform(np.log(lo), np.log(hi))))

    def direction(self, d=3):
        """A unit vector: generic, axis-aligned, nearly axis-aligned, or in a coordinate plane."""
        r = self.rng.random()
        if r < 0.2:
            v = np.zeros(d)
            v[self.integer(0, d - 1)] = self.pick([-1., 1.])
            return v
        v = self.rng.normal(size=d)
        if r < 0.3:
            v[self.integer(0, d - 1)] = 0.
        elif r < 0.4:
            v *= 1e-4
            v[self.integer(0, d - 1)] = self.pick([-1., 1.])
        elif r < 0.5:
            v = np.array([self.pick([-1., 1., 0., 2.]) for _ in range(d)])
        n = np.linalg.norm(v)
        if n == 0:
            v[0] = n = 1.
        return v / n

    def vector(self, lo=1e-3, hi=1e3, d=3):
        """A nonzero vector of any length."""
        r = self.rng.random()
        if r < 0.15:
            v = self.rng.integers(-5, 6, d).astype(float)
            if np.any(v):
                return v
        if r < 0.2:
            v = self.direction(d)
            v[self.rng.random(d) < 0.3] *= -0.0
            if np.any(v):
                return v
        return self.direction(d) * self.scale(lo, hi)

    def cloud(self, n, d=3, lo=1e-2, hi=1e2, offset=True):
        """(n, d) points of some style."""
        r = self.rng.random()
        if r < 0.35:
            a = self.rng.normal(size=(n, d))
        elif r < 0.45:
            a = self.rng.uniform(-1, 1, (n, d))
        elif r < 0.65:
            a = self.rng.integers(-4, 5, (n, d)).astype(float)
        elif r < 0.75:
            a = self.rng.normal(size=(n, d)) * np.exp(self.rng.uniform(-4, 4, d))
        elif r < 0.85 and n:
            a = self.rng.normal(size=(n, d))
            a = a[self.rng.integers(0, n, n)]  # duplicates
        elif r < 0.92:
            a = np.cumsum(self.rng.normal(size=(n, d)), axis=0) / max(1., np.sqrt(n))
        else:
            a = self.rng.normal(size=(n, d))
            a[:, self.integer(0, d - 1)] = self.pick([0., -0., 1.])
        if self.chance(0.6):
            a = a * self.scale(lo, hi)
        if offset and self.chance(0.35):
            a = a + self.direction(d) * self.scale(0.1, 1e3)
        return np.array(a, dtype=np.float64)

    def rotation(self):
        r = self.rng.random()
        if r < 0.15:
            return np.eye(3)
        if r < 0.35:  # a symmetry of the cube
            p = self.rng.permutation(3)
            m = np.zeros((3, 3))
            m[np.arange(3), p] = self.rng.choice([-1., 1.], 3)
            if np.linalg.det(m) < 0:
                m[0] *= -1
            return m
        return self.axis_angle(self.direction(), self.rng.uniform(-np.pi, np.pi))

    @staticmethod
    def axis_angle(k, t):
        k = np.asarray(k, dtype=np.longdouble)
        k = k / np.sqrt(np.sum(k * k))
        t = np.longdouble(t)
        K = np.array([[0, -k[2], k[1]], [k[2], 0, -k[0]], [-k[1], k[0], 0]], dtype=np.longdouble)
        R = np.eye(3, dtype=np.longdouble) + np.sin(t) * K + (1 - np.cos(t)) * K.dot(K)
        return R.astype(np.float64)

    def layout(self, a, whole=True):
        """The same values in some memory layout / writability."""
        a = np.asarray(a)
        if whole and a.dtype == np.float64 and a.size and np.all(a == np.round(a)) and np.abs(a).max() < 1000 and not np.any(np.signbit(a) & (a == 0)) and self.rng.random() < 0.5:
            # whole numbers, as such; products of four of them have to fit the type
            a = a.astype(self.pick(['i4', 'i8', 'i8']) if np.abs(a).max() < 30 else 'i8')
        r = self.rng.random()
        if r < 0.4:
            return a
        if r < 0.5:
            return np.asfortranarray(a)
        if r < 0.65:
            b = np.full(tuple(2 * s + 1 for s in a.shape), 7.25).astype(a.dtype)
            v = b[tuple(slice(1, None, 2) for _ in a.shape)]
            v[...] = a
            return v
        if r < 0.8:
            rev = tuple(slice(None, None, -1) for _ in a.shape)
            return np.ascontiguousarray(a[rev])[rev]
        b = np.array(a)
        b.flags.writeable = False
        return b
