"""Histories: random appends (10 kinds of step, 0..60 steps) interleaved with refused steps and
queries over the whole stack or any range, forward and reverse; oracle: a list of exact-ish
4x4 steps applied one after the other to the points in 80-bit arithmetic. A case is one history."""
import numpy as np
from blmath.geometry.transform import CompositeTransform, composite
from blmath.numerics import vx
from vmon import ref, xf
from vmon.core import workload
from vmon.xf import well_conditioned
from vmon.shim import load_chumpy

load_chumpy()


def query(c, t, m, full=False):
    g = c.g
    n = len(m.steps)
    if full or g.chance(0.3):
        start, stop, rng = 0, n, None
    else:
        start = g.integer(0, n)
        stop = g.integer(start, n)
        rng = g.pick([(start, stop), [start, stop]])
        if stop == n and g.chance(0.5):  # a stop past the end is the end, as in slices
            rng = (start, n + g.integer(1, 4))
    kw = {} if rng is None and g.chance(0.5) else {'from_range': rng}
    for rev in (False, True) if g.chance(0.5) else (g.chance(0.5),):
        p = xf.points(c)
        kwr = dict(kw, reverse=rev) if rev or g.chance(0.5) else kw
        if 'reverse' in kwr:
            kwr['reverse'] = c.g.truth(rev)
        got = c.call(t, p, **kwr)
        want = m.apply(p, start, stop, rev)
        size = ref.norm(np.concatenate([ref.ld(p), np.ones((len(p), 1))], axis=1))
        tol = (m.bound(start, stop, rev) * size)[:, None]
        c.close(got, want, tol, '%s over steps %s..%s of %d' % ('reverse' if rev else 'forward', start, stop, n))
        M = c.call(t.matrix_for, **kwr)
        c.close(M, m.matrix(start, stop, rev), m.bound(start, stop, rev), 'matrix_for')
        c.equal(M[3], [0, 0, 0, 1], 'last row of the matrix')
        c.close(c.call(vx.apply_homogeneous, p, M), want, tol, 'apply_homogeneous with the reported matrix')
        back = c.call(t, got, from_range=rng, reverse=not rev)
        amp = float(np.linalg.norm(np.asarray(m.matrix(start, stop, not rev), dtype=float)))
        if not any(start <= i < stop for i in m.inexact):
            c.close(back, p, (m.bound(start, stop, not rev) * (ref.norm(want) + 1) if len(p) else np.zeros(0))[:, None] + tol * amp,
                    'there and back over steps %s..%s' % (start, stop))
        if start == stop:
            c.equal(M, np.eye(4), 'matrix of no steps')
            c.equal(got, p, 'no steps move nothing')


def history(c, n):
    t, m = c.call(CompositeTransform), xf.Model(True)
    if c.g.chance(0.3):
        query(c, t, m)
    qp = 1. if n <= 4 else 4. / n
    same = [c.g.pick(['translate', 'scale', 't4', 'rotate_v', 't3i'])] if c.g.chance(0.15) else None
    for i in range(n):
        if c.g.chance(0.08):
            xf.bad_step(c, t)
        _, idx = xf.random_step(c, t, m, allow=same)
        c.check(idx == i, 'step %d reported position %r', i, idx)
        if c.g.chance(qp):
            query(c, t, m)
    if c.g.chance(0.3):
        xf.bad_step(c, t)
    query(c, t, m, full=True)
    query(c, t, m)
    c.bucket('steps %d' % n if n < 4 else 'steps 4..9' if n < 10 else 'steps 10+')


@workload(quick=1500)
def extreme(c):
    """One scale or translation of any size: every coordinate to a few units in the last place."""
    g = c.g
    t = c.call(CompositeTransform)
    p = c.g.cloud(g.integer(1, 5), lo=1e-1, hi=1e2)
    c.input('points', p)
    if g.chance(0.6):
        f = c.input('scale', g.pick([10. ** g.rng.uniform(-30, 30), 10. ** g.rng.uniform(-12, 12), 2. ** g.integer(-90, 90)]))
        c.bucket('scale')
        c.call(t.scale, f)
        want, back = ref.ld(p) * f, ref.ld(p) / f
    else:
        v = c.input('translate', g.direction() * 10. ** g.rng.uniform(-20, 20))
        c.bucket('translate')
        c.call(t.translate, v)
        want, back = ref.ld(p) + v, ref.ld(p) - v
    c.close(c.call(t, p), want, 4e-16 * np.abs(want), 'forward')
    c.close(c.call(t, p, reverse=True), back, 4e-16 * np.abs(back), 'reverse')


@workload(quick=2400)
def short_histories(c):
    history(c, c.g.integer(0, 6))


@workload(quick=250)
def long_histories(c):
    history(c, c.g.size(7, 60))


@workload(quick=300)
def isolation(c):
    """Two stacks never influence each other, and appends do not disturb earlier ranges."""
    a, ma = c.call(CompositeTransform), xf.Model(True)
    b, mb = c.call(CompositeTransform), xf.Model(True)
    for _ in range(c.g.integer(2, 8)):
        t, m = (a, ma) if c.g.chance(0.5) else (b, mb)
        _, idx = xf.random_step(c, t, m)
        c.check(idx == len(m.steps) - 1, 'position')
    k = len(ma.steps)
    p = xf.points(c)
    before = c.call(a, p, from_range=(0, k))
    mat = np.array(c.call(a.matrix_for, from_range=(0, k)))
    for _ in range(c.g.integer(1, 4)):
        xf.random_step(c, a, ma)
    c.equal(c.call(a, p, from_range=(0, k)), before, 'an earlier range after later appends')
    c.equal(c.call(a.matrix_for, from_range=(0, k)), mat, 'matrix of an earlier range after later appends')
    query(c, a, ma, full=True)
    query(c, b, mb, full=True)


@workload(quick=500)
def padding(c):
    n = c.g.size(0, 50)
    p = c.input('p', c.g.layout(c.g.cloud(n), whole=False))
    q = c.call(vx.pad_with_ones, p)
    c.equal(q, np.concatenate([p, np.ones((n, 1))], axis=1), 'pad_with_ones')
    c.equal(c.call(vx.unpad, q), p, 'unpad(pad)')
    if n:
        bad = np.array(q)
        bad[c.g.integer(0, n - 1), 3] = c.g.pick([0., 2., -1., 1 + 1e-12, 1 - 1e-9, 1 + 1e-6, 1.0001, np.nan, np.inf, np.nextafter(1., 2)])
        c.raises(ValueError, vx.unpad, bad)
    for shape in [(n, 4), (n, 2), (3,), (2, 3, 3)]:
        c.raises(ValueError, vx.pad_with_ones, np.ones(shape))
    for shape in [(n, 3), (n, 5), (4,), (2, 3, 4)]:
        c.raises(ValueError, vx.unpad, np.ones(shape))
    c.raises(ValueError, vx.apply_homogeneous, q, np.eye(4))
    c.raises(ValueError, vx.apply_homogeneous, p, np.eye(3))


@workload(quick=600)
def embedding(c):
    """A 3x3 matrix as a 4x4 one and back: moves points alike; other shapes are refused."""
    g = c.g
    A = g.pick([well_conditioned, lambda q: q.rng.normal(size=(3, 3)), lambda q: q.rng.integers(-9, 10, size=(3, 3))])(g)
    A = c.input('A', g.layout(A))
    keep = np.array(A)
    M = c.call(composite.convert_33_to_44, A)
    c.equal(A, keep, 'the matrix after')
    want = np.eye(4)
    want[:3, :3] = keep
    c.equal(M, want, '4x4 form')
    p = xf.points(c)
    q = np.asarray(p, float)
    c.close(c.call(vx.apply_homogeneous, q, np.asarray(M, float)), ref.matmul(ref.ld(q), ref.ld(keep).T), 1e-14 * (np.abs(keep).max() + 1) * (np.abs(q).max(initial=0) + 1), 'points moved by the 4x4 form')
    c.equal(c.call(composite.convert_44_to_33, M), keep, 'back to 3x3')
    B = c.input('B', g.rng.normal(size=(4, 4)))
    c.equal(c.call(composite.convert_44_to_33, B), B[:3, :3], '3x3 part')
    for shape in [(3, 4), (4, 4), (2, 2), (1, 3)]:
        c.raises(ValueError, composite.convert_33_to_44, np.ones(shape))
    for shape in [(3, 3), (4, 3), (3, 4), (5, 5)]:
        c.raises(ValueError, composite.convert_44_to_33, np.ones(shape))
