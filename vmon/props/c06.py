"""Point sets of 3..2000 points (generic, coplanar, three points, integer grids, anisotropic,
offset by up to 1000 sizes), exact rigid motions and noisy / mirrored / unrelated targets, as
rows or columns, single vectors incl. parallel and opposite. Oracle: the motion used, and
independently computed optimum (SVD with sign) plus random perturbations of the answer."""
import numpy as np
from blmath.geometry.transform import find_rigid_transform, find_rigid_rotation
from vmon.core import workload


def well_spread(c, n, planar):
    g = c.g
    for _ in range(50):
        a = g.cloud(n, offset=False)
        if planar:
            a = a.dot(np.diag([1., 1., 0.])).dot(g.rotation().T) if g.chance(0.7) else a * [1., 0., 1.]
        s = np.linalg.svd(a - a.mean(axis=0), compute_uv=False)
        if len(s) > 1 and s[1] > 0.03 * s[0] > 0:
            return a, s
    a = np.array([[0., 0, 0], [1, 0, 0], [0, 2, 0]] + [[0., 1, 0]] * (n - 3)) if n >= 3 else np.eye(3)[:n]
    return a, np.linalg.svd(a - a.mean(axis=0), compute_uv=False)


def motion(c, size):
    R = c.g.rotation()
    t = c.g.direction() * size * c.g.pick([0., 1., 1., 100., c.g.scale(1e-2, 1e2)])
    return c.input('R', R), c.input('t', t)


def as_arg(c, p):
    """Nx3 points as rows or columns (three points only as columns: 3x3 means columns)."""
    p = c.g.layout(p.T if len(p) == 3 or c.g.chance(0.5) else p)
    return p


def proper(c, R, tol=1e-11):
    c.check(R.shape == (3, 3), 'R has shape %s', R.shape)
    c.close(R.dot(R.T), np.eye(3), tol, 'R is orthogonal')
    c.check(np.linalg.det(R) > 0, 'R is a reflection')


def best_rotation(H):
    """Rotation maximizing trace(R H), with the reflection indicator and the singular values."""
    u, s, vt = np.linalg.svd(H)
    d = np.sign(np.linalg.det(u) * np.linalg.det(vt))
    return vt.T.dot(np.diag([1, 1, d])).dot(u.T), d, s


@workload(quick=6000)
def exact_motion(c):
    n = c.g.count(3, 60, 40000 if c.g.chance(0.1) else 2000, 0.05)
    planar = n == 3 or c.g.chance(0.4)
    a, s = well_spread(c, n, planar)
    size = s[0] / np.sqrt(n)
    off = np.zeros(3)
    if c.g.chance(0.4):
        off = c.g.direction() * size * c.g.scale(1., 1e3)
    a = c.input('a', a + off)
    R, t = motion(c, size)
    b = a.dot(R.T) + t
    c.bucket('planar' if planar else 'spatial', 'n=3' if n == 3 else 'n>3')
    aa, bb = as_arg(c, a), as_arg(c, b)
    R2, T2 = c.call(find_rigid_transform, aa, bb)
    big = np.abs(a).max() + np.abs(b).max()
    rel = big / size
    cond = (s[0] / s[1]) ** 2
    tol = 1e-14 * rel * cond * 10 + 1e-13
    proper(c, R2)
    c.close(R2, R, tol, 'the rotation is recovered')
    c.check(T2.shape == (3, 1), 'T has shape %s', T2.shape)
    c.close(T2[:, 0], t, tol * big * 3, 'the translation is recovered')
    c.close(R2.dot(a.T) + T2, b.T, tol * big * 3, 'the motion reproduces the target')
    # the rotation alone
    x = c.g.layout(a.T)
    y = c.g.layout(a.dot(R.T).T)
    c.close(c.call(find_rigid_rotation, x, y), R, 1e-12 * (rel ** 2) * cond + 1e-12, 'find_rigid_rotation recovers')
    f = c.g.scale(1e-3, 1e3)
    got = c.call(find_rigid_rotation, x, y * f, allow_scaling=True)
    c.close(got / f, R, 1e-12 * (rel ** 2) * cond + 1e-12, 'find_rigid_rotation recovers rotation and scale %g' % f)


@workload(quick=6000)
def noisy(c):
    n = c.g.count(3, 400 if c.g.chance(0.1) else 30, 40000, 0.02)
    planar = c.g.chance(0.3)
    a, s = well_spread(c, n, planar)
    size = s[0] / np.sqrt(n)
    if c.g.chance(0.3):
        a = a + c.g.direction() * size * c.g.scale(1., 50.)
    R, t = motion(c, size)
    kind = c.g.pick(['noise', 'noise', 'mirror', 'random', 'permuted'])
    b = a.dot(R.T) + t
    if kind == 'noise':
        b = b + c.rng.normal(size=b.shape) * size * 10. ** c.rng.uniform(-9, 1)
    elif kind == 'mirror':
        b = (b - t).dot(np.diag([1., 1., -1.])) + t + c.rng.normal(size=b.shape) * size * c.g.pick([0., 1e-6, 0.1])
    elif kind == 'random':
        b = c.g.cloud(n)
    else:
        b = b[c.rng.permutation(n)]
    a, b = c.input('a', a), c.input('b', b)
    ac, bc = a - a.mean(axis=0), b - b.mean(axis=0)
    Ropt, d, sv = best_rotation(ac.T.dot(bc))
    try:
        R2, T2 = find_rigid_transform(as_arg(c, a), as_arg(c, b))
    except ValueError as e:
        c.check(d < 0 or sv[2] <= 1e-9 * sv[0], 'refused although the best orthogonal fit is a rotation: %s', e)
        c.bucket('%s refused' % kind)
    else:
        c.bucket('%s solved' % kind)
        proper(c, R2)
        c.check(np.shape(T2) == (3, 1), 'T has shape %s', np.shape(T2))

        def err(Q, T):
            return np.sum((a.dot(Q.T) + T - b) ** 2)
        got = err(R2, T2[:, 0])
        scale2 = np.sum(ac ** 2) + np.sum(bc ** 2) + 1e-13 * (np.sum(a ** 2) + np.sum(b ** 2))
        best = err(Ropt, b.mean(axis=0) - Ropt.dot(a.mean(axis=0)))
        c.check(got <= best + 1e-11 * scale2, 'squared error %g, but %g is possible', got, best)
        for _ in range(2):
            w = c.rng.normal(size=3)
            Q = c.g.axis_angle(w, 10. ** c.rng.uniform(-3, 0.4)).dot(R2)
            c.check(got <= err(Q, b.mean(axis=0) - Q.dot(a.mean(axis=0))) + 1e-11 * scale2, 'a perturbed rotation is better')
            c.check(got <= err(R2, T2[:, 0] + w * size * 1e-2) + 1e-11 * scale2, 'a shifted translation is better')


@workload(quick=6000)
def rotation_only(c):
    n = c.g.pick([1, 1, 2, 3, c.g.count(2, 200, 40000, 0.03)])
    a = c.g.cloud(n)
    if not np.any(a):
        a = a + c.g.vector()
    if c.g.chance(0.3):
        a = a * 10. ** c.rng.uniform(-9, 9)
    if n == 1:
        k = c.g.integer(0, 3)
        b = [c.g.vector(1e-2, 1e2)[None], a * c.g.scale(), -a * c.g.scale(), a.dot(c.g.rotation().T)][k]
    elif c.g.chance(0.5):
        b = a.dot(c.g.rotation().T) + c.rng.normal(size=a.shape) * np.abs(a).max() * 10. ** c.rng.uniform(-6, 1)
    else:
        b = c.g.cloud(n)
    if not np.any(b):
        b = b + c.g.vector()
    if c.g.chance(0.3):
        b = b * 10. ** c.rng.uniform(-9, 9)
    a, b = c.input('a', a), c.input('b', b)
    c.bucket('n=%d' % n if n < 4 else 'n>3')
    x, y = c.g.layout(a.T), c.g.layout(b.T)
    if n == 1 and c.g.chance(0.4):
        x, y = x[:, 0], y[:, 0]
    R = c.call(find_rigid_rotation, x, y)
    proper(c, R)
    na, nb = np.sqrt(np.sum(a ** 2)), np.sqrt(np.sum(b ** 2))
    if n == 1:
        c.close(R.dot(a[0] / na), b[0] / nb, 1e-9, 'the vector is aligned onto the other')
    an, bn = a / na, b / nb
    Ropt, _, _ = best_rotation(an.T.dot(bn))

    def err(Q):
        return np.sum((an.dot(Q.T) - bn) ** 2)
    c.check(err(R) <= err(Ropt) + 1e-11, 'squared error %g, but %g is possible', err(R), err(Ropt))
    Q = c.g.axis_angle(c.rng.normal(size=3), 10. ** c.rng.uniform(-3, 0.4)).dot(R)
    c.check(err(R) <= err(Q) + 1e-11, 'a perturbed rotation is better')
    S = c.call(find_rigid_rotation, x, y, allow_scaling=True)
    c.close(S * (na / nb), R, 1e-11, 'with scaling: rotation times the ratio of sizes')
    if n == 1:
        c.close(S.dot(a[0]) / nb, b[0] / nb, 1e-9, 'with scaling the vector is mapped onto the other')
