"""Pairs of 3-vectors built at a chosen angle (0, 180, within 1e-12..1e-1 of them, 90, any),
lengths 1e-6..1e6, integer pairs with exactly decidable signs, tolerances around the
thresholds; oracle: half-angle formula in 80-bit arithmetic, exact integer triple products."""
import numpy as np
from blmath.numerics import vx
from vmon import ref
from vmon.core import workload


def angle_tol(theta_deg):
    s = float(np.sin(np.radians(np.longdouble(theta_deg))))
    d = 1e-14
    return np.degrees(min(d / max(s, 1e-300), 2 * np.sqrt(d))) + 1e-11


def pair(c):
    g = c.g
    a = g.vector(1e-6, 1e6)
    r = c.rng.random()
    if r < 0.2:
        b = a * g.pick([1., -1., 2., -0.5, 3., 1e-5, -1e5])
        kind = 'parallel'
    elif r < 0.5:
        t = g.pick([0., np.pi]) + g.pick([-1, 1]) * 10. ** g.rng.uniform(-12, -0.5)
        k = np.cross(a, g.direction() + 1e-3)
        if not np.any(k):
            k = np.cross(a, [1., 2., 3.])
        b = g.axis_angle(k, t).dot(a) * g.scale(1e-3, 1e3)
        kind = 'near'
    elif r < 0.6:
        k = np.cross(a, g.direction() + 1e-3)
        b = k if np.any(k) else np.cross(a, [1., 2., 3.])
        kind = 'right'
    elif r < 0.8:
        a = c.rng.integers(-9, 10, 3).astype(float)
        b = c.rng.integers(-9, 10, 3).astype(float)
        a[0] += not np.any(a)
        b[1] += not np.any(b)
        kind = 'integer'
    else:
        b = g.vector(1e-6, 1e6)
        kind = 'any'
    c.bucket(kind)
    return c.input('v1', g.layout(a)), c.input('v2', g.layout(b)), kind


@workload(quick=12000)
def angles(c):
    a, b, _ = pair(c)
    look = c.input('look', c.g.pick([c.g.vector(), c.g.vector(), None]))
    true = ref.angle(a, b)
    got = c.call(vx.angle, a, b, look)
    tol = angle_tol(true)
    c.close(got, true, tol, 'angle in degrees')
    c.check(0 <= got <= 180, 'angle %r outside [0, 180]', got)
    c.close(c.call(vx.angle, b, a, look), got, 2 * tol, 'angle is symmetric')
    s, t = c.g.scale(1e-6, 1e6), c.g.scale(1e-6, 1e6)
    c.close(c.call(vx.angle, a * s, b * t, look), got, 2 * tol, 'angle is independent of lengths')


@workload(quick=12000)
def signed_angles(c):
    a, b, kind = pair(c)
    r = c.rng.random()
    if kind == 'integer':
        look = c.rng.integers(-9, 10, 3).astype(float)
        look[2] += not np.any(look)
        if r < 0.25:
            look = a + b * c.g.integer(-2, 2)  # in the plane of the vectors
            look = look if np.any(look) else a
        elif r < 0.6:  # hardly out of their plane, of any length (all exact)
            look = (look * 2. ** 30 if r < 0.3 else (a + b * c.g.integer(-2, 2)) * 2. ** 30) + np.cross(a, b) * c.g.pick([-1., 1.])
            look = (look if np.any(look) else a) * 2. ** -c.g.integer(0, 90)
            c.bucket('look almost in the plane')
        if r > 0.85:
            b = c.input('v2', a * c.g.integer(1, 4) * c.g.pick([-1., 1.]))
    else:
        look = c.g.vector(1e-6, 1e6)
    look = c.input('look', look)
    true = ref.angle(a, b)
    tol = angle_tol(true)
    got = c.call(vx.signed_angle, a, b, look)
    c.close(abs(got), true, tol, 'size of the signed angle')
    triple = ref.dot(ref.cross(a, b), look)
    bound = 1e-14 * ref.norm(a) * ref.norm(b) * ref.norm(look)
    if kind == 'integer':
        bound = 0
    if triple > bound or (triple == 0 and bound == 0):
        c.bucket('sign+' if triple else 'sign0')
        c.check(got >= 0, 'signed angle %r should be non-negative', got)
    elif triple < -bound:
        c.bucket('sign-')
        c.check(got < 0 or true <= tol, 'signed angle %r should be negative', got)
    c.check(-180 <= got <= 180, 'signed angle %r outside [-180, 180]', got)


@workload(quick=8000)
def almost_zero(c):
    atol = c.g.pick([None, None, 0., 1e-8, 1e-3, 1., c.g.scale(1e-12, 1e3)])
    t = 1e-8 if atol is None else atol
    shape = (3,) if c.g.chance(0.8) else (c.g.size(1, 8), 3)
    f = np.array([0., -0., 1., -1., 0.5, -0.999999, 0.99])
    v = c.rng.choice(f, shape) * t
    if c.g.chance(0.6):
        i = c.g.integer(0, v.size - 1)
        v.flat[i] = c.g.pick([np.nan, np.inf, -np.inf, np.nextafter(t, np.inf), t * 1.0001, -t * 1.01, 2 * t, -10 * t, t, -t, -np.nextafter(t, np.inf), 1.])
    v = c.input('v', c.g.layout(v))
    c.input('atol', atol)
    want = bool(np.all(np.abs(v) <= t))
    c.bucket('yes' if want else 'no')
    got = c.call(vx.almost_zero, v) if atol is None else c.call(vx.almost_zero, v, atol=atol)
    c.check(bool(got) == want, 'almost_zero is %r, expected %r', got, want)


@workload(quick=8000)
def almost_collinear(c):
    atol = c.g.pick([None, None, 1e-8, 1e-3, 1., c.g.scale(1e-9, 1e3)])
    t = 1e-8 if atol is None else atol
    a = c.g.vector(*c.g.pick([(1e-2, 1e2), (1e-2, 1e2), (1e-5, 1e6)]))
    k = np.cross(a, [0.3, -0.5, 0.7])
    n = np.linalg.norm(k)
    if n < 1e-3 * np.linalg.norm(a):
        k = np.cross(a, [1., 0., 0.])
        n = np.linalg.norm(k)
    k /= n
    want_norm = t * c.g.pick([0., 0.5, 0.9, 0.99, 1.01, 1.1, 2., 10., 1e3])
    b = a * c.g.pick([1., -1., 0., 2.5, 0., c.g.scale(1e-9, 1e-3)]) + k * want_norm / np.linalg.norm(a)
    if c.g.chance(0.1):
        b = np.zeros(3)
    if c.g.chance(0.2):
        b = c.g.vector(1e-2, 1e2)
    if c.g.chance(0.03):
        b[c.g.integer(0, 2)] = np.nan
        c.bucket('nan')
        c.input('v1', a), c.input('v2', b)
        c.check(not (c.call(vx.almost_collinear, a, b) if atol is None else c.call(vx.almost_collinear, a, b, atol=atol)), 'collinear to a vector that is not a number')
        return
    if c.g.chance(0.5):
        a, b = b, a
    a, b = c.input('v1', c.g.layout(a)), c.input('v2', c.g.layout(b))
    c.input('atol', atol)
    norm = ref.norm(ref.cross(a, b))
    slack = 1e-14 * ref.norm(a) * ref.norm(b)
    if abs(norm - t) <= slack:
        c.bucket('ambiguous')
        return
    got = c.call(vx.almost_collinear, a, b) if atol is None else c.call(vx.almost_collinear, a, b, atol=atol)
    c.bucket('yes' if norm <= t else 'no')
    c.check(bool(got) == bool(norm <= t), 'almost_collinear is %r; |v1 x v2| = %g, tolerance %g', got, float(norm), t)
