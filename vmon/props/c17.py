"""Boxes with origins up to 1e4 and sizes 0..1e4 (zero in any axis, integers, lists), re-read
after origin or size is replaced; prisms, cubes and triangular prisms of sizes 1e-3..1e3
anywhere. Oracle: interval arithmetic from origin and size in 80 bits; edge pairing and the
divergence-theorem volume of the triangulated surface; lace.topology.quads_to_tris (not
installed) is provided as documented there."""
import sys
import types

import numpy as np
from blmath.geometry import Box
from vmon import ref
from vmon.core import workload

EPS = 2.3e-16


def setup():
    lace = types.ModuleType('lace')
    topo = types.ModuleType('lace.topology')

    def quads_to_tris(quads):
        tris = np.empty((2 * len(quads), 3), dtype=quads.dtype)
        tris[0::2] = quads[:, [0, 1, 2]]
        tris[1::2] = quads[:, [0, 2, 3]]
        return tris
    topo.quads_to_tris = quads_to_tris
    lace.topology = topo
    sys.modules['lace'], sys.modules['lace.topology'] = lace, topo


def check_box(c, b, o, s):
    o, s = ref.ld(o), ref.ld(s)
    big = ref.maxabs(o, s)
    t = 2 * EPS * big
    for k, axis in enumerate('xyz'):
        c.close(c.get(b, 'min_' + axis), o[k], 0., 'min_' + axis)
        c.close(c.get(b, 'max_' + axis), o[k] + s[k], t, 'max_' + axis)
        c.close(c.get(b, 'mid_' + axis), o[k] + s[k] / 2, t, 'mid_' + axis)
        c.close(c.get(b, ('width', 'height', 'depth')[k]), s[k], 0., ('width', 'height', 'depth')[k])
    c.close(c.get(b, 'ranges'), np.stack([o, o + s], 1), t, 'ranges')
    c.close(c.get(b, 'center_point'), o + s / 2, t, 'center')
    c.close(c.get(b, 'floor_point'), o + s * np.array([0.5, 0, 0.5]), t, 'floor point')
    c.close(c.get(b, 'volume'), s[0] * s[1] * s[2], 4 * EPS * s[0] * s[1] * s[2], 'volume')
    A = 2 * (s[0] * s[1] + s[1] * s[2] + s[2] * s[0])
    c.close(c.get(b, 'surface_area'), A, 8 * EPS * A, 'surface area')


def box_args(c):
    g = c.g
    o = np.array([g.number(1e-3, 1e4) for _ in range(3)])
    s = np.abs(np.array([g.number(1e-3, 1e4) for _ in range(3)]))
    if g.chance(0.1):
        s = np.repeat(s[0], 3)
    if g.chance(0.2):
        o, s = np.round(o).astype(int), np.round(s).astype(int)
    return o, s


@workload(quick=6000)
def boxes(c):
    g = c.g
    o, s = box_args(c)
    c.input('origin', o), c.input('shape', s)
    f = lambda a: g.pick([a.copy(), a.tolist(), tuple(a.tolist()), np.array(g.layout(a))])
    b = c.call(Box, f(o), f(s))
    check_box(c, b, o, s)
    if g.chance(0.3):
        o2, s2 = box_args(c)
        if g.chance(0.5):
            b.origin = o2
            o = o2
        if g.chance(0.5):
            b.shape = s2
            s = s2
        c.input('then', [o, s])
        check_box(c, b, o, s)
    if g.chance(0.4):
        bad = np.array(s, dtype=float)
        bad[g.integer(0, 2)] = -g.scale(1e-9, 1e3)
        c.raises(ValueError, Box, f(np.asarray(o)), bad)


def surface(c, v, f, volume, tol, what):
    """Closed, consistently outward-wound triangles enclosing exactly the volume."""
    f = np.asarray(f)
    c.check(f.ndim == 2 and f.shape[1] == 3 and f.min() >= 0 and f.max() < len(v), '%s: faces %s', what, f.tolist())
    edges = {}
    for a in f.tolist():
        c.check(len(set(a)) == 3, '%s: face %s', what, a)
        for i in range(3):
            e = (a[i], a[(i + 1) % 3])
            edges[e] = edges.get(e, 0) + 1
    for (i, j), k in edges.items():
        c.check(k == 1 and edges.get((j, i)) == 1, '%s: edge %d-%d is not shared by two consistently wound triangles', what, i, j)
    w = ref.ld(v) - ref.ld(v).mean(axis=0)
    p = w[f]
    parts = ref.dot(p[:, 0], ref.cross(p[:, 1], p[:, 2])) / 6
    c.close(np.sum(parts), volume, tol, what + ': volume')
    c.check(np.all(parts > -tol), '%s: a face is wound inwards', what)


def flat_form(c, fn, args, v, f, what):
    flat = c.call(fn, *args) if c.g.chance(0.5) else c.call(fn, *args, ret_unique_vertices_and_faces=False)
    c.equal(flat, np.asarray(v)[np.asarray(f)], what + ': flattened form')


def match(c, v, want, tol, what):
    v = np.asarray(v)
    c.check(v.shape == want.shape, '%s: vertices of shape %s', what, v.shape)
    d = np.max(np.abs(v[:, None] - want[None]), axis=2)
    c.check(np.all(np.min(d, axis=0) <= tol) and np.all(np.min(d, axis=1) <= tol), '%s: corners %s, expected %s', what, v.tolist(), np.asarray(want, dtype=float).tolist())


@workload(quick=4000)
def prisms(c):
    from blmath.geometry.shapes import create_rectangular_prism, create_cube
    g = c.g
    o = np.array([g.number(1e-2, 1e3) for _ in range(3)])
    s = np.array([g.scale() for _ in range(3)])
    k = g.unit()
    o, s = o * k, s * k
    cube = g.chance(0.4)
    if cube:
        s = np.repeat(s[0], 3)
    if g.chance(0.2):
        o, s = np.round(o).astype(int), np.ceil(s).astype(int)
    c.input('origin', o), c.input('size', s)
    fn, size = (create_cube, s[0].item()) if cube else (create_rectangular_prism, g.layout(s))
    if cube and g.chance(0.3):
        size = s[0]
    v, f = c.call(fn, g.layout(o), size, ret_unique_vertices_and_faces=True)
    corner = np.array([[i, j, k] for i in (0, 1) for j in (0, 1) for k in (0, 1)])
    big = ref.maxabs(o, s)
    match(c, v, ref.ld(o) + corner * ref.ld(s), 3 * EPS * big, 'prism')
    V = ref.ld(s[0]) * s[1] * s[2]
    surface(c, v, f, V, 60 * EPS * big * (ref.ld(s[0]) * s[1] + ref.ld(s[1]) * s[2] + ref.ld(s[2]) * s[0]) + 60 * EPS * V, 'prism')
    flat_form(c, fn, (g.layout(o), size), v, f, 'prism')


@workload(quick=4000)
def triangular_prisms(c):
    from blmath.geometry.shapes import create_triangular_prism
    g = c.g
    P = g.cloud(3, lo=1e-1)
    e, d = ref.ld(P[1]) - P[0], ref.ld(P[2]) - P[0]
    N = ref.cross(e, d)
    if float(ref.norm(N)) < 1e-3 * float(ref.norm(e) * ref.norm(d)) or float(ref.norm(N)) < 1e-5:
        P = np.array([[0, 0, 0], [1., 2, 0], [-1, 1, 3]]) * g.scale(1e-1, 1e1) + P[0]
        e, d = ref.ld(P[1]) - P[0], ref.ld(P[2]) - P[0]
        N = ref.cross(e, d)
    h = g.scale()
    k = g.unit()
    k = k if float(ref.norm(N)) * k * k > 1e-5 else 1.  # smaller ones are refused as degenerate
    P, h, N = P * k, h * k, N * k * k
    e, d = ref.ld(P[1]) - P[0], ref.ld(P[2]) - P[0]
    if g.chance(0.15):  # whole numbers, perhaps of an integer type
        Q = np.round(P / k * g.pick([1, 10])).astype(int)
        M = ref.cross(ref.ld(Q[1] - Q[0]), ref.ld(Q[2] - Q[0]))
        if np.abs(Q).max() < 10 ** 6 and float(ref.norm(M)) > 1e-3 * float(ref.norm(ref.ld(Q[1] - Q[0])) * ref.norm(ref.ld(Q[2] - Q[0]))) > 0:
            P, N = g.pick([Q, Q, Q.astype(float)]), M
            if g.chance(0.4):
                h = int(np.ceil(h)) if h < 1e6 else h
            e, d = ref.ld(P[1]) - P[0], ref.ld(P[2]) - P[0]
            c.bucket('whole numbers', str(P.dtype))
    c.input('points', P), c.input('height', h)
    args = g.pick([lambda: [g.layout(p) for p in P], lambda: list(P), lambda: list(P), lambda: list(P) if P.dtype.kind != 'i' else P.tolist()])()
    v, f = c.call(create_triangular_prism, *args, height=h, ret_unique_vertices_and_faces=True)
    s = ref.maxabs(P)
    nn = ref.norm(N)
    u = N / nn
    tol = 3 * EPS * (s + h) + 10 * EPS * h * float(ref.norm(e) * ref.norm(d) / nn)
    match(c, v, np.vstack([ref.ld(P), ref.ld(P) - h * u]), tol, 'triangular prism')
    L = float(ref.norm(e) + ref.norm(d))
    surface(c, v, f, nn / 2 * h, 40 * tol * (L + h) ** 2 + 1e-14 * float(nn) * h, 'triangular prism')
    flat_form(c, create_triangular_prism, tuple(args) + (h,), v, f, 'triangular prism')


@workload(quick=10)
def horizontal_plane(c):
    from blmath.geometry.shapes import create_horizontal_plane
    c.input('call', c.index % 2)
    v, f = c.call(create_horizontal_plane, ret_unique_vertices_and_faces=True)
    c.check(np.all(np.asarray(v)[:, 1] == 0), 'not horizontal')
    v_ = np.asarray(v, float)
    f_ = np.asarray(f)
    N = np.cross(v_[f_[:, 1]] - v_[f_[:, 0]], v_[f_[:, 2]] - v_[f_[:, 0]])
    c.check(np.shape(f) == (2, 3) and np.all(N[:, 1] > 0), 'not two triangles facing up: %s', N.tolist())
    c.close(N[:, 1].sum() / 2, 2., 1e-12, 'area')
    c.close(v_.sum(axis=0), np.zeros(3), 1e-12, 'centre of the corners')
    diag = np.linalg.norm(v_, axis=1)
    c.close(diag, np.ones(4), 1e-12, 'distance of the corners from the centre')
    edges = [tuple(sorted(e)) for t in np.asarray(f).tolist() for e in ((t[0], t[1]), (t[1], t[2]), (t[2], t[0]))]
    c.check(len(set(edges)) == 5, 'the triangles do not share exactly one edge')
    flat_form(c, create_horizontal_plane, (), v, f, 'horizontal plane')
