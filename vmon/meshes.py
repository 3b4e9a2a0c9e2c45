"""Edge-manifold triangle meshes: closed, open, with holes, several components, renumbered."""
import numpy as np
from scipy.spatial import ConvexHull


class Mesh(object):
    def __init__(self, v, f):
        self.v, self.f = v, f


def grid_faces(n, m, wrap_n, wrap_m):
    """Triangles over an n x m lattice of vertices (wrapped or not)."""
    i, j = np.meshgrid(np.arange(n if wrap_n else n - 1), np.arange(m if wrap_m else m - 1), indexing='ij')
    i, j = i.ravel(), j.ravel()
    a, b = i * m + j, ((i + 1) % n) * m + j
    d, e = i * m + (j + 1) % m, ((i + 1) % n) * m + (j + 1) % m
    return np.concatenate([np.stack([a, b, e], 1), np.stack([a, e, d], 1)])


def piece(g, big):
    k = g.pick(['hull', 'hull', 'sphere', 'torus', 'tube', 'sheet', 'sheet', 'heights', 'fan', 'triangle', 'tet'])
    top = 200 if big else 14
    if k == 'hull':
        n = g.size(5, 3000 if big else 120)
        p = g.rng.normal(size=(n, 3))
        if g.chance(0.5):
            p /= np.linalg.norm(p, axis=1)[:, None]
        h = ConvexHull(p)
        used = np.unique(h.simplices)
        new = np.zeros(n, dtype=int)
        new[used] = np.arange(len(used))
        return p[used], new[h.simplices], k
    if k == 'sphere':  # latitude/longitude with poles
        n, m = g.size(2, top), g.size(3, top)
        th = np.pi * (np.arange(n) + 1) / (n + 1)
        ph = 2 * np.pi * np.arange(m) / m
        v = np.stack([np.outer(np.sin(th), np.cos(ph)), np.outer(np.sin(th), np.sin(ph)), np.outer(np.cos(th), np.ones(m))], -1).reshape(-1, 3)
        f = grid_faces(n, m, False, True)
        N, S = n * m, n * m + 1
        j = np.arange(m)
        f = np.concatenate([f, np.stack([np.full(m, N), j, (j + 1) % m], 1), np.stack([np.full(m, S), (n - 1) * m + (j + 1) % m, (n - 1) * m + j], 1)])
        return np.vstack([v, [[0, 0, 1.], [0, 0, -1.]]]), f, k
    if k == 'torus':
        n, m = g.size(3, top), g.size(3, top)
        a = 2 * np.pi * np.arange(n) / n
        b = 2 * np.pi * np.arange(m) / m
        r = 2 + np.outer(np.ones(n), np.cos(b)) * g.rng.uniform(0.3, 1.8)
        v = np.stack([r * np.cos(a)[:, None], r * np.sin(a)[:, None], np.outer(np.ones(n), np.sin(b))], -1).reshape(-1, 3)
        return v, grid_faces(n, m, True, True), k
    if k == 'tube':
        n, m = g.size(3, top), g.size(2, top)
        a = 2 * np.pi * np.arange(n) / n
        v = np.stack([np.outer(np.cos(a), np.ones(m)), np.outer(np.sin(a), np.ones(m)), np.outer(np.ones(n), np.arange(m) / float(m) * 3)], -1).reshape(-1, 3)
        return v, grid_faces(n, m, True, False), k
    if k in ('sheet', 'heights'):
        n, m = g.size(2, top), g.size(2, top)
        x, y = np.meshgrid(np.arange(n), np.arange(m), indexing='ij')
        z = g.rng.integers(-3, 4, (n, m)) if k == 'heights' else g.rng.normal(size=(n, m)) * g.pick([0.01, 0.5, 2.])
        return np.stack([x, y, z], -1).reshape(-1, 3).astype(float), grid_faces(n, m, False, False), k
    if k == 'fan':
        n = g.size(3, 20)
        a = np.linspace(0, g.pick([1., 5., 6.]), n)
        v = np.vstack([[[0, 0, 0.3]], np.stack([np.cos(a), np.sin(a), 0 * a], 1)])
        j = np.arange(1, n)
        return v, np.stack([0 * j, j, j + 1], 1), k
    if k == 'triangle':
        return g.rng.normal(size=(3, 3)), np.array([[0, 1, 2]]), k
    return g.rng.normal(size=(4, 3)), np.array([[0, 1, 2], [0, 3, 1], [1, 3, 2], [2, 3, 0]]), k


def mesh(c, big=False, dtype=None):
    """-> Mesh, kinds. Distinct vertex positions, every edge in one or two faces."""
    g = c.g
    vs, fs, kinds = [], [], []
    n = 0
    for _ in range(g.pick([1, 1, 1, 2, 3, 6])):
        v, f, k = piece(g, big)
        if g.chance(0.2):
            v = v + g.rng.normal(size=v.shape) * 0.02
        if g.chance(0.5):
            v = v.dot(g.rotation().T)
        v = v * g.pick([1., 1., 2., 0.3]) + (g.rng.normal(size=3) * g.pick([0., 3., 3.]) if n else 0.)
        if g.chance(0.35) and len(f) > 2:
            keep = g.rng.random(len(f)) < g.pick([0.95, 0.8, 0.5])
            f = f[keep] if keep.any() else f[:1]
        vs.append(v)
        fs.append(f + n)
        n += len(v)
        kinds.append(k)
    v, f = np.vstack(vs), np.vstack(fs)
    if g.chance(0.3):
        extra = g.size(1, 5)
        v = np.vstack([v, g.rng.normal(size=(extra, 3)) * 2])
    if g.chance(0.6):
        v = v.dot(g.rotation().T) * g.scale(1e-2, 1e3)
    if g.chance(0.4):
        v = v + g.direction() * g.scale(1e-1, 1e2)
    if g.chance(0.2):  # the whole scene in other units
        v = v * g.scale(1e-10, 1e7)
    v = np.ascontiguousarray(v)
    if g.chance(0.04) and len(v) < 20000:  # far-apart, congruent vertex numbers; the rest is used by no face
        M = g.pick([256, 1000, 4096, 32768, 65536, 65536])
        k = int(min(180000 // M + 1, g.pick([2, 3, 8])))
        r = -(-len(v) // k)
        n = max(r, M) * k
        num = (np.arange(n).reshape(k, -1)[:, :r]).ravel()
        num = num[g.rng.permutation(len(num))[:len(v)]]
        w = g.rng.normal(size=(n, 3)) * np.abs(v).max()
        w[num] = v
        v, f = w, num[f]
    elif g.chance(0.7):  # renumber
        p = g.rng.permutation(len(v))
        inv = np.empty(len(v), dtype=int)
        inv[p] = np.arange(len(v))
        v, f = v[p], inv[f]
    if g.chance(0.6):
        f = f[g.rng.permutation(len(f))]
    if g.chance(0.6):  # start each face anywhere
        k = g.rng.integers(0, 3, len(f))
        f = np.take_along_axis(f, (np.arange(3)[None] + k[:, None]) % 3, axis=1)
    if g.chance(0.3):  # inconsistent winding
        w = g.rng.random(len(f)) < 0.5
        f[w] = f[w][:, ::-1]
    f = f.astype(dtype or g.pick([np.int64, np.uint64, np.uint32, np.int32]))
    return Mesh(v, f), kinds
