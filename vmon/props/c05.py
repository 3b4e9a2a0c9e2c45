"""up/look pairs at any angle down to 1e-6 rad and exact multiples; Euler angle lists with any
axis order and length, degrees and radians; rotation vectors of length 0, denormal-ish,
1e-12..1e-1, around pi and beyond, in every accepted shape. Oracle: 80-bit Rodrigues formula,
its numerical derivative, and geometric conditions on the returned matrices."""
import numpy as np
from blmath.geometry.transform import rotation_from_up_and_look
from blmath.geometry.transform.rotation import euler
from vmon import ref
from vmon.core import workload
from vmon.shim import load_chumpy

ch = load_chumpy()
from blmath.geometry.transform import rodrigues as rod  # noqa: E402

LD = ref.LD
I3 = np.eye(3, dtype=LD)


def rot_ld(v):
    v = ref.ld(v).ravel()
    th = np.sqrt(np.sum(v * v))
    K = np.array([[0, -v[2], v[1]], [v[2], 0, -v[0]], [-v[1], v[0], 0]], dtype=LD)
    if th < 1e-6:
        return I3 + (1 - th * th / 6) * K + (LD(0.5) - th * th / 24) * ref.matmul(K, K)
    h = np.sin(th / 2) / th
    return I3 + np.sin(th) / th * K + 2 * h * h * ref.matmul(K, K)


def check_rotation(c, R, tol, what):
    c.check(isinstance(R, np.ndarray) and R.shape == (3, 3), '%s: not a 3x3 array', what)
    c.close(ref.matmul(R, R.T), I3, tol, what + ': orthogonal')
    c.check(np.linalg.det(R) > 0, '%s: determinant %g', what, np.linalg.det(R))


@workload(quick=9000)
def up_and_look(c):
    g = c.g
    up = g.vector(1e-6, 1e6)
    r = c.rng.random()
    if r < 0.3:
        k = np.cross(up, g.direction() + [0.1, 0.2, 0.3])
        k = k if np.any(k) else np.array([up[1] + 1, -up[0], up[2]])
        ang = g.pick([10. ** g.rng.uniform(-6, -1), np.pi - 10. ** g.rng.uniform(-6, -1), np.pi / 2])
        look = g.axis_angle(k, ang).dot(up) * g.scale()
    else:
        look = g.vector(1e-6, 1e6)
    sin = ref.norm(ref.cross(ref.unit(up), ref.unit(look)))
    if sin < 1e-7:
        look = up + np.array([up[1] + up[2], up[2] - up[0], 2 * up[0] + 3 * ref.maxabs(up)])
        sin = ref.norm(ref.cross(ref.unit(up), ref.unit(look)))
    if g.chance(0.2) and np.all(up == np.round(up)) and np.all(look == np.round(look)):
        up, look = up.astype(int), look.astype(int)
    form = g.integer(0, 2)
    up, look = c.input('up', up), c.input('look', look)
    args = [(up, look), (up.tolist(), tuple(look.tolist())), (g.layout(up), g.layout(look))][form]
    R = c.call(rotation_from_up_and_look, *args)
    tol = 2e-15 / float(sin) + 1e-14
    c.bucket('sin<1e-3' if sin < 1e-3 else 'generic')
    check_rotation(c, R, tol, 'up/look rotation')
    y = ref.matmul(R, ref.unit(up)[:, None])[:, 0]
    c.close(y, [0, 1, 0], tol, 'up goes to +y')
    z = ref.matmul(R, ref.unit(look)[:, None])[:, 0]
    c.close(z[0], 0., tol, 'look goes into the y-z plane')
    c.check(z[2] > 0, 'look goes to negative z')


@workload(quick=2500)
def up_and_look_refused(c):
    g = c.g
    v = g.vector(1e-3, 1e3)
    k = g.integer(0, 2)
    z = g.pick([np.zeros(3), -np.zeros(3), [0, 0, 0]])
    if k == 0:
        a = (z, v)
    elif k == 1:
        a = (v, z)
    else:
        a = (v, v * g.pick([1., -1., 2., -0.5, 3., 0.1, 1e3, -7e-3, g.scale()]))
    c.input('up', a[0]), c.input('look', a[1])
    c.raises(ValueError, rotation_from_up_and_look, *a)


@workload(quick=8000)
def euler_angles(c):
    g = c.g
    n = g.pick([1, 2, 3, 3, 3, 3, 4, 6, 9])
    order = ''.join(g.pick('xyz') for _ in range(n))
    if n == 3 and g.chance(0.6):
        order = g.pick(['xyz', 'xzy', 'yxz', 'yzx', 'zxy', 'zyx'])
    units = g.pick(['deg', 'deg', 'rad'])
    top = 720. if units == 'deg' else 10.
    ang = c.rng.uniform(-top, top, n)
    ang[c.rng.random(n) < 0.2] = g.pick([0., 90., 45., 180., -90., 360., 1.])
    ang[c.rng.random(n) < 0.1] *= 1e-6
    c.input('angles', ang), c.input('order', order), c.input('units', units)
    kw = {}
    if order != 'xyz' or g.chance(0.5):
        kw['order'] = g.pick([order, list(order)])
    if units != 'deg' or g.chance(0.5):
        kw['units'] = units
    a = g.pick([ang, ang.tolist(), tuple(ang.tolist())])
    if n == 1 and g.chance(0.5):
        a = float(ang[0])
    if units == 'deg' and np.all(ang == np.round(ang)) and g.chance(0.5):
        a = [int(x) for x in ang]
    got = c.call(euler, a, **kw)
    want = I3
    f = np.arctan(LD(1)) / 45 if units == 'deg' else LD(1)
    for t, axis in zip(ang, order):
        e = np.zeros(3, dtype=LD)
        e['xyz'.index(axis)] = LD(t) * f
        want = ref.matmul(rot_ld(e), want)
    c.close(got, want, 1e-14 * (n + ref.maxabs(ang) * (0.02 if units == 'deg' else 1)), 'product of the axis rotations')


def rotvec(c, top=None):
    g = c.g
    th = g.pick([0., 1e-300, 1e-17, 1e-15, 10. ** g.rng.uniform(-12, -1), np.pi, np.pi - 10. ** g.rng.uniform(-9, -1),
                 np.pi / 2, 1., g.rng.uniform(0, np.pi), g.rng.uniform(0, np.pi), g.rng.uniform(0, np.pi),
                 10. ** g.rng.uniform(-6, -4), np.pi - 10. ** g.rng.uniform(-6, -4)]
                + ([] if top else [g.rng.uniform(np.pi, 12), 2 * np.pi, 4., 10. ** g.rng.uniform(1, 3), g.integer(1, 60) * np.pi + g.pick([0., 1e-7, -1e-3, 0.3])]))
    k = g.direction()
    if g.chance(0.15):
        k = np.array([g.pick([0., 1., -1., 1e-6, -1e-6, 0.7]) for _ in range(3)])
        k = k / np.linalg.norm(k) if np.any(k) else g.direction()
    v = k * th
    if top and np.linalg.norm(v) > np.pi:
        v *= np.pi / np.linalg.norm(v) * (1 - 1e-15)
    return c.input('r', v)


def shaped(c, v):
    return c.g.pick([v, v.reshape(3, 1), v.reshape(1, 3), v.tolist(), c.g.layout(v)])


@workload(quick=5000)
def vector_to_matrix(c):
    v = rotvec(c)
    R = c.call(rod.rodrigues, shaped(c, v))
    c.close(R, rot_ld(v), 2e-15 * (1 + np.linalg.norm(v)), 'rotation by |r| about r')
    M = c.call(rod.as_rotation_matrix, np.asarray(shaped(c, v)))
    c.close(M, R, 0., 'as_rotation_matrix of a vector')
    R2, J = c.call(rod.rodrigues, shaped(c, v), calculate_jacobian=True)
    c.equal(R2, R, 'the value does not depend on asking for the Jacobian')
    c.check(J.shape == (3, 9), 'Jacobian shape %s', J.shape)
    h = LD('1e-6')
    want = []
    for i in range(3):
        e = np.zeros(3, dtype=LD)
        e[i] = h
        want.append(((rot_ld(ref.ld(v) + e) - rot_ld(ref.ld(v) - e)) / (2 * h)).ravel())
    th = max(float(ref.norm(v)), 1e-8)
    c.close(J, np.array(want), 2e-11 + 2e-15 / th + 2e-12 * th, 'Jacobian of the matrix')


def same_rotation(c, v, R, tol, what):
    c.close(rot_ld(v), R, tol, what)


@workload(quick=5000)
def matrix_to_vector(c):
    v = rotvec(c, top=True)
    R = np.asarray(rot_ld(v), dtype=float)
    c.input('R', R)
    th = float(ref.norm(v))
    s = abs(np.sin(th))
    got = c.call(rod.rodrigues, c.g.pick([R, R.tolist(), c.g.layout(R)]))
    c.check(got.shape == (3, 1), 'shape %s', got.shape)
    c.check(np.linalg.norm(got) <= np.pi * (1 + 1e-12), 'longer than pi')
    coarse = s < 2e-5
    c.bucket('near 0' if coarse and th < 1 else 'near pi' if coarse else 'generic')
    tol = 1e-12 + (1e-14 / max(s, 1e-5) if th > 1 else 0.)
    same_rotation(c, got, R, tol, 'rotation by the vector found')
    if th < 1 or not coarse:
        c.close(got.ravel(), v, tol if th < 1 else 1e-14 / s, 'the matrix-to-vector conversion inverts')
    M = c.call(rod.as_rotation_matrix, R)
    c.close(M, R, tol, 'as_rotation_matrix passes a rotation through')
    r2, J = c.call(rod.rodrigues, R, calculate_jacobian=True)
    c.equal(r2, got, 'the value does not depend on asking for the Jacobian')
    c.check(J.shape == (9, 3), 'Jacobian shape %s', J.shape)
    if th < 2.9 and (th > 1e-4 or th < 1e-9):
        # along the manifold: R(v + h d)
        h = LD('1e-6')
        for d in np.eye(3):
            dR = (rot_ld(ref.ld(v) + h * d) - rot_ld(ref.ld(v) - h * d)) / (2 * h)
            c.close(ref.matmul(dR.reshape(1, 9), J)[0], d, 1e-9 / max(s, 0.01) if th > 1e-3 else 1e-7, 'Jacobian of the vector')


@workload(quick=2500)
def nearly_a_rotation(c):
    """Rotations to a few digits only: single precision, scaled, or with noise."""
    g = c.g
    v = g.direction() * g.pick([g.rng.uniform(1e-3, 3.1), 10. ** g.rng.uniform(-3, 0), np.pi / 2])
    R = np.asarray(rot_ld(v), dtype=float)
    k = g.integer(0, 3)
    if k == 0:
        M = R.astype(np.float32)
        M = M if g.chance(0.5) else M.astype(float)
    elif k == 1:
        M = R * (1 + g.sign() * 10. ** g.rng.uniform(-15, -2))
    elif k == 2:
        M = R + c.rng.normal(size=(3, 3)) * 10. ** g.rng.uniform(-15, -4.5)
    else:
        M = np.round(R, g.integer(5, 14))
    c.bucket(['single precision', 'scaled', 'noise', 'rounded'][k])
    c.input('R', M)
    u, _, w = np.linalg.svd(M.astype(float))
    got = c.call(rod.rodrigues, g.layout(M))
    c.check(got.shape == (3, 1), 'shape %s', got.shape)
    s = abs(np.sin(float(ref.norm(v))))
    same_rotation(c, got, ref.matmul(u, w), 2e-6 if M.dtype == np.float32 else 1e-11 + 1e-13 / s, 'rotation by the vector found is the nearest one')


@workload(quick=500)
def as_rotation(c):
    """Refusals, and the differentiable wrapper."""
    bad = c.g.pick([np.ones(4), np.ones((4, 4)), np.ones((2, 3)), np.ones((3, 2)), np.ones((3, 3, 1)), np.float64(1.)])
    c.input('bad', bad)
    c.raises(Exception, rod.as_rotation_matrix, bad)
    c.raises(Exception, rod.rodrigues, bad)
    v = c.rng.normal(size=3) * c.g.pick([0.1, 1., 2.])
    c.input('r', v)
    node = c.call(rod.Rodrigues, rt=v)
    c.close(node.r, rot_ld(v), 1e-13, 'Rodrigues.r')
    J = node.dr_wrt(node.rt)
    J = J.toarray() if hasattr(J, 'toarray') else np.asarray(J)
    _, J2 = rod.rodrigues(v, calculate_jacobian=True)
    c.close(J, J2.T, 1e-9, 'Rodrigues.dr_wrt')
    node.rt = v * 0.5
    c.close(node.r, rot_ld(v * 0.5), 1e-13, 'Rodrigues.r after a change')
