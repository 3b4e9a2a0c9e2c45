"""Single triangles and stacks of 0..5000 (also exactly 3), slivers down to sin 1e-4, exactly
degenerate ones mixed in, points near, far and in the plane. Oracle: orthogonal projection
and cross product in 80-bit arithmetic. Non-trivial: at least one triangle."""
import numpy as np
from blmath.geometry.barycentric import barycentric_coordinates_of_projection as bary
from blmath.geometry.surface_normals import surface_normal
from vmon import ref
from vmon.core import workload

EPS = 2.3e-16


def triangles(c, n):
    g = c.g
    style = g.integer(0, 4)
    u, v = g.cloud(n, offset=False), g.cloud(n, offset=False)
    if style == 0:
        u, v = np.round(u), np.round(v)
    elif style == 1 and n:  # slivers
        w = np.cross(u, v)
        v = u * g.rng.uniform(-2, 2, (n, 1)) + w / np.maximum(np.linalg.norm(w, axis=1), 1e-9)[:, None] * np.linalg.norm(u, axis=1)[:, None] * 10. ** g.rng.uniform(-3, 0, (n, 1))
    elif style == 2:  # in a coordinate plane
        k = g.integer(0, 2)
        u[:, k] = v[:, k] = 0
    nn = ref.norm(ref.cross(u, v))
    bad = nn < 1e-4 * ref.norm(u) * ref.norm(v)
    bad |= (ref.norm(u) < 1e-3) | (ref.norm(v) < 1e-3)
    u[bad], v[bad] = [1., 2., 0.5], [-1., 0.5, 3.]
    return u, v


def pick_n(c):
    g = c.g
    return g.pick([1, 3, 3]) if g.chance(0.15) else g.count(0, 50, 50000 if g.chance(0.1) else 5000, 0.03)


@workload(quick=6000)
def coordinates(c):
    g = c.g
    single = g.chance(0.4)
    n = 1 if single else pick_n(c)
    u, v = triangles(c, n)
    q = g.cloud(n)
    k = g.rng.random((n, 1))
    p = q + np.where(k < 0.3, g.rng.normal(size=(n, 1)) * u + g.rng.normal(size=(n, 1)) * v,
                     np.where(k < 0.4, u, np.where(k < 0.5, 0., g.rng.normal(size=(n, 3)) * g.scale(1e-1, 1e2))))
    p = p + np.where(g.rng.random((n, 1)) < 0.3, np.cross(u, v), 0.)
    if g.chance(0.15):  # points far outside
        p = np.where(g.rng.random((n, 1)) < 0.5, q + g.rng.normal(size=(n, 3)) * g.scale(1e2, 1e9), p)
    deg = np.zeros(n, dtype=bool)
    if g.chance(0.3):
        deg = g.rng.random(n) < g.pick([0.3, 1.])
        u[deg] = np.round(u[deg] * 2)
        v[deg] = u[deg] * g.pick([0., 1., -2., 3., 0.5])
        if g.chance(0.3):
            u[deg] = 0.
    k = g.unit()
    p, q, u, v = p * k, q * k, u * k, v * k
    for name, x in (('p', p), ('q', q), ('u', u), ('v', v)):
        c.input(name, x)
    c.bucket('single' if single else 'rows 64+' if n >= 64 else 'rows', 'with degenerate' if deg.any() else 'regular')
    c.trivial = n == 0
    if single:
        b = np.asarray(c.call(bary, *[g.layout(x[0]) for x in (p, q, u, v)]))
        c.check(b.size == 3, 'shape %s', b.shape)
        b = b.reshape(1, 3)
    else:
        b = c.call(bary, *[g.layout(x) for x in (p, q, u, v)])
    c.check(b.shape == (n, 3), 'shape %s', b.shape)
    c.check(np.all(np.isfinite(b)), 'not finite: %s', b[~np.isfinite(b).all(axis=1)][:1])
    c.close(ref.ld(b).sum(axis=1), np.ones(n), 8 * EPS * (1 + np.abs(b).sum(axis=1)), 'sum')
    ok = ~deg
    if not ok.any():
        return
    P, Q, U, V, B = [ref.ld(x[ok]) for x in (p, q, u, v, b)]
    N = ref.cross(U, V)
    nn = ref.norm(N)
    W = P - Q
    s = np.max(np.abs(np.hstack([P, Q])), axis=1)
    tol = 30 * EPS * (1 + (ref.norm(U) + ref.norm(V)) * (ref.norm(W) + s * 0.2) / nn * (1 + ref.norm(U) * ref.norm(V) / nn))
    want2 = ref.dot(ref.cross(U, W), N) / nn ** 2
    want1 = ref.dot(ref.cross(W, V), N) / nn ** 2
    c.close(B[:, 1], want1, tol, 'second coordinate')
    c.close(B[:, 2], want2, tol, 'third coordinate')
    c.close(B[:, 0], 1 - want1 - want2, 3 * tol, 'first coordinate')
    H = N / nn[:, None]
    proj = P - ref.dot(W, H)[:, None] * H
    again = B[:, :1] * Q + B[:, 1:2] * (Q + U) + B[:, 2:] * (Q + V)
    c.close(again, proj, (3 * tol * (ref.norm(U) + ref.norm(V) + s))[:, None], 'combination of the corners')


@workload(quick=6000)
def normals(c):
    g = c.g
    single = g.chance(0.4)
    n = 1 if single else pick_n(c)
    u, v = triangles(c, n)
    q = g.cloud(n)
    T = np.stack([q, q + u, q + v], 1)
    if g.chance(0.2):
        T = np.round(T)
    U, V = ref.ld(T[:, 1]) - T[:, 0], ref.ld(T[:, 2]) - T[:, 0]
    N = ref.cross(U, V)
    bad = ref.norm(N) <= 1e-6 * ref.norm(U) * ref.norm(V)
    T[bad] = [[0, 0, 0], [1, 2, 0], [0, 1, 3]]
    T = T * g.unit()
    if g.chance(0.2) and n:  # areas a hair from a half
        U, V = T[:, 1] - T[:, 0], T[:, 2] - T[:, 0]
        T = T / np.sqrt(np.linalg.norm(np.cross(U, V), axis=1))[:, None, None] * (1 + g.rng.normal() * 10. ** g.rng.uniform(-12, -2))
    if np.all(T == np.round(T)) and np.all(np.abs(T) < 1e6) and g.chance(0.4):
        T = T.astype(int)
    c.input('points', T)
    c.trivial = n == 0
    U, V = ref.ld(T[:, 1]) - T[:, 0], ref.ld(T[:, 2]) - T[:, 0]
    N = ref.cross(U, V)
    nn = ref.norm(N)
    arg = g.layout(T[0] if single else T)
    got = np.asarray(c.call(surface_normal, arg, normalize=True) if g.chance(0.5) else c.call(surface_normal, arg))
    raw = np.asarray(c.call(surface_normal, arg, normalize=False))
    shape = (3,) if single else (n, 3)
    c.check(got.shape == shape and raw.shape == shape, 'shapes %s, %s', got.shape, raw.shape)
    got, raw = got.reshape(-1, 3), raw.reshape(-1, 3)
    tol = 6 * EPS * ref.norm(U) * ref.norm(V)
    c.close(raw, N, tol[:, None], 'unscaled normal')
    if n:
        c.close(got, N / nn[:, None], (4 * EPS + 2 * tol / nn)[:, None], 'normal')
        c.close(ref.norm(got), np.ones(n), 8 * EPS, 'unit length')
