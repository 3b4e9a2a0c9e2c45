"""Random vectors and stacks (1..6 dimensions, 0..5000 rows, magnitudes 1e-6..1e6, integer,
axis-aligned, nearly-unit, nearly-parallel data, any memory layout); oracle: definitions in
80-bit arithmetic, row by row. Non-trivial: at least one component and one row."""
import numpy as np
from blmath.numerics import vx
from vmon import ref
from vmon.core import workload

EPS = 1e-13


def make_vectors(c, n, d):
    g, rng = c.g, c.rng
    style = g.integer(0, 6)
    if style == 0:
        v = rng.normal(size=(n, d)) * np.exp(rng.uniform(np.log(1e-6), np.log(1e6), (n, 1)))
    elif style == 1:
        v = rng.integers(-6, 7, (n, d)).astype(float)
    elif style == 2:
        v = np.zeros((n, d))
        v[np.arange(n), rng.integers(0, d, n)] = rng.choice([-1., 1., 2., 1e-6, 1e6], n)
    elif style == 3:  # nearly unit
        v = rng.normal(size=(n, d))
        v /= np.maximum(1e-9, np.sqrt((v * v).sum(axis=1)))[:, None]
        v *= 1 + rng.choice([0., 1e-3, -1e-3, 1e-5, 1e-7, -1e-9, 1e-10], (n, 1))
    elif style == 4:
        v = rng.normal(size=(n, d)) * 10. ** rng.integers(-6, 7, (n, d))
        v = np.clip(v, -1e6, 1e6)
    elif style == 5:
        v = rng.normal(size=(n, d)) * g.scale(1e-6, 1e6)
    else:
        v = rng.normal(size=(n, d)) + g.direction(d) * g.scale(1, 1e4)
    z = ~np.any(v, axis=1)
    v[z, 0] = 1.
    if g.chance(0.15):
        v = np.where(v == 0, -0., v)
    if style == 1 and g.chance(0.5):
        if g.chance(0.4):
            return (v * g.integer(1, 10 ** g.integer(1, 6))).astype(np.int64)
        return v.astype(g.pick([np.int64, np.int32, np.int16]))
    return v


def pick_stack(c):
    d = c.g.pick([3, 3, 3, 3, 2, 4, 1, 5, 6])
    n = c.g.count(0, 60, 70000 if c.g.chance(0.1) else 5000, 0.05)
    if c.g.chance(0.15):
        n = d
    single = c.g.chance(0.35)
    v = make_vectors(c, 1 if single else n, d)
    v = c.g.layout(v[0] if single else v)
    c.trivial = v.size == 0
    c.bucket('vector' if single else 'stack', 'dim%d' % d, 'rows>=64' if n >= 64 and not single else 'rows<64')
    return c.input('v', v)


def onto_for(c, v):
    d = v.shape[-1]
    r = c.rng.random()
    if r < 0.25 and v.size:
        base = np.asarray(v if v.ndim == 1 else v[c.g.integer(0, len(v) - 1)], dtype=float)
        o = base * c.g.pick([1., -1., 2.5, 1e-3, 1.])
        if c.g.chance(0.6):
            o = o + c.rng.normal(size=d) * np.linalg.norm(o) * 10. ** -c.g.integer(1, 10)
    elif r < 0.4:
        o = c.g.direction(d) * c.g.pick([1., 1., 1 + 1e-5, 1 - 1e-7, 1 + 1e-9])
    else:
        o = make_vectors(c, 1, d)[0]
    if not np.any(o):
        o = np.ones(d)
    return c.input('onto', c.g.layout(o))


@workload(quick=6000)
def normalize_magnitude(c):
    v = pick_stack(c)
    n = c.call(vx.normalize, v)
    m = c.call(vx.magnitude, v)
    true = ref.norm(v)
    c.close(m, true, EPS * true, 'magnitude')
    c.close(n, ref.unit(v), EPS, 'normalize: unit vector in the same direction')
    if v.ndim == 2 and len(v):
        i = c.g.integer(0, len(v) - 1)
        c.close(c.call(vx.normalize, v[i]), n[i], EPS, 'normalize: row %d alone' % i)
        c.close(c.call(vx.magnitude, v[i]), m[i], EPS * true[i], 'magnitude: row %d alone' % i)


@workload(quick=6000)
def projection(c):
    v = pick_stack(c)
    o = onto_for(c, v)
    u = ref.unit(o)
    size = ref.norm(v)
    s_true = ref.dot(v, u)
    s = c.call(vx.sproj, v, onto=o)
    c.close(s, s_true, EPS * size, 'sproj: signed length')
    par = c.call(vx.proj, v, onto=o)
    perp = c.call(vx.reject, v, from_v=o)
    p_true = s_true[..., None] * u
    tol = (EPS * size)[..., None]
    c.close(par, p_true, tol, 'proj: parallel part')
    c.close(perp, ref.ld(v) - p_true, tol, 'reject: perpendicular part')
    c.close(ref.ld(par) + ref.ld(perp), v, tol, 'proj + reject')
    c.close(ref.dot(perp, u), np.zeros(size.shape), EPS * size, 'reject is perpendicular')
    if c.g.chance(0.1):  # exact in any precision of `onto`: the vector's digits must survive
        k, f = c.g.integer(0, v.shape[-1] - 1), c.g.pick([1., -1., 2., 0.25])
        e = np.zeros(v.shape[-1], dtype=c.g.pick(['f4', 'f4', 'i8', 'i4', 'f8']))
        e[k] = f if e.dtype.kind == 'f' else np.sign(f)
        c.input('axis', e)
        w = np.asarray(v[..., k], dtype=float)
        c.close(c.call(vx.sproj, v, onto=e), w * np.sign(f), EPS * size, 'sproj onto a coordinate axis')
        if np.any(e):
            c.close(c.call(vx.reject, v, from_v=e)[..., k], 0 * w, EPS * size, 'reject from a coordinate axis')
    if v.ndim == 2 and len(v):
        i = c.g.integer(0, len(v) - 1)
        t = EPS * size[i]
        c.close(c.call(vx.proj, v[i], onto=o), par[i], t, 'proj: row %d alone' % i)
        c.close(c.call(vx.reject, v[i], from_v=o), perp[i], t, 'reject: row %d alone' % i)
        c.close(c.call(vx.sproj, v[i], onto=o), s[i], t, 'sproj: row %d alone' % i)


@workload(quick=4000)
def reject_axis(c):
    v = pick_stack(c)
    d = v.shape[-1]
    axis = c.input('axis', c.g.integer(0, d - 1))
    axis = c.g.index(axis)
    r = c.call(vx.reject_axis, v, axis)
    want = np.array(v)
    want[..., axis] = 0
    c.equal(r, want, 'reject_axis zeroes exactly that component')
    c.check(not np.shares_memory(r, v), 'reject_axis returns a new array')
    if d == 3:
        s = c.call(vx.reject_axis, v, axis, squash=True)
        c.equal(s, np.delete(np.array(v), axis, axis=-1), 'reject_axis(squash) drops exactly that component')
        c.check(not np.shares_memory(s, v), 'reject_axis(squash) returns a new array')
        c.raises(ValueError, vx.reject_axis, v, c.g.pick([3, -1, 4, 7, 'x']), squash=True)


@workload(quick=600)
def refusals(c):
    nd = c.g.pick([0, 3, 3, 4, 5])
    shape = tuple(c.g.size(1, 4) for _ in range(nd - 1)) + ((3,) if nd else ())
    a = c.input('a', np.array(c.rng.normal(size=shape) + 5.))
    o = c.input('o', c.g.vector())
    c.bucket('ndim%d' % nd)
    c.raises(ValueError, vx.normalize, a)
    c.raises(ValueError, vx.magnitude, a)
    c.raises(ValueError, vx.proj, a, onto=o)
    c.raises(ValueError, vx.reject, a, from_v=o)
    if nd:
        c.raises(ValueError, vx.reject_axis, a, c.g.integer(0, 2))
        c.raises(ValueError, vx.reject_axis, a, c.g.integer(0, 2), squash=True)
    c.raises(ValueError, vx.sproj, o, onto=a)


AXES = {'x': (1, 0, 0), 'y': (0, 1, 0), 'z': (0, 0, 1), 'neg_x': (-1, 0, 0), 'neg_y': (0, -1, 0), 'neg_z': (0, 0, -1)}


@workload(quick=300)
def directions(c):
    g = c.g
    held = []
    for k in range(g.integer(1, 12)):
        n = c.input('axis%d' % k, g.pick(sorted(AXES)))
        a = c.get(vx.basis, n)
        c.equal(a, np.array(AXES[n], dtype=float), 'basis.%s' % n)
        c.check(isinstance(a, np.ndarray) and a.dtype == np.float64, 'basis.%s is %r', n, a)
        for m, b, was in held:
            c.equal(b, was, 'an earlier basis.%s' % m)
        what = g.pick(['keep', 'scale', 'overwrite', 'zero'])
        if what == 'scale':
            a *= g.number(1e-3, 1e3)
        elif what == 'overwrite':
            a[:] = g.vector()
        elif what == 'zero':
            a[g.integer(0, 2)] = 0
        held.append((n, a, a.copy()))
