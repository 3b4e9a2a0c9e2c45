"""C28: every public computation, called in random interleavings on fresh, read-only, strided,
reversed and column-major arguments: arguments are compared bit by bit before and after, each
result is compared with what the same call gave before other calls ran and after the earlier
result was overwritten, global numpy state is watched."""
import decimal
import os
import random
import sys
import warnings
import zlib

import numpy as np
import scipy.sparse as sp

from vmon.core import workload, Violation, Skip
from vmon import shim, meshes, unitdefs

shim.load_chumpy()
# what the repository imports while computing, imported first: importing changes warning filters
import cv2  # noqa: E402,F401  pylint: disable=unused-import
import scipy.linalg, scipy.spatial, scipy.sparse.linalg  # noqa: E402,E401,F401  pylint: disable=unused-import
import sklearn.decomposition  # noqa: E402,F401  pylint: disable=unused-import
import chumpy as ch  # noqa: E402
from blmath.geometry import Box, Plane, Polyline  # noqa: E402
from blmath.geometry import segment, apex as apex_module, barycentric, convexify, surface_normals, shapes  # noqa: E402
from blmath.geometry.transform import (CompositeTransform, CoordinateManager, find_rigid_rotation, find_rigid_transform,  # noqa: E402
                                       rotation_from_up_and_look)
from blmath.geometry.transform import rotation, translation, rodrigues, composite  # noqa: E402
from blmath.numerics import vx, matlab, operations, rounding, predicates, coercion, numpy_ext  # noqa: E402
from blmath.numerics.linalg import gram_schmidt, isomorphism, lchol, sparse_cg, static_block_sparse_matrix as sb  # noqa: E402
from blmath.optimization.objectives import normals  # noqa: E402
from blmath import units  # noqa: E402
from blmath.value import Value  # noqa: E402
from blmath.util import json as bljson  # noqa: E402

NEEDS_CHOLMOD = True


# ---- arguments: plain recipes, made into objects anew for every call

class Obj(object):
    """A recipe for an object: kind and parts."""
    def __init__(self, kind, *parts):
        self.kind, self.parts = kind, parts

    def __repr__(self):
        return '%s%r' % (self.kind, self.parts)


class Mesh(object):
    def __init__(self, v, f):
        self.v, self.f = v, f


STEPS = ('translate', 'scale', 'rotate', 'reorient', 'append_transform3', 'append_transform4', 'convert_units')


def stored_zeros(A, where):
    """Sparse, with the zeros at `where` stored."""
    i, j = np.nonzero((A != 0) | np.asarray(where, bool))
    M = sp.coo_matrix((np.ones(len(i)), (i, j)), shape=A.shape).tocsr()
    M.data[:] = A[np.repeat(np.arange(len(A)), np.diff(M.indptr)), M.indices]
    return M


def realize(x, lay):
    if isinstance(x, np.ndarray):
        return lay(x)
    if isinstance(x, list):
        return [realize(y, lay) for y in x]
    if isinstance(x, tuple):
        return tuple(realize(y, lay) for y in x)
    if isinstance(x, dict):
        return dict((k, realize(y, lay)) for k, y in x.items())
    if not isinstance(x, Obj):
        return x
    p = [realize(y, lay) for y in x.parts]
    if x.kind == 'plane':
        return Plane(*p)
    if x.kind == 'polyline':
        return Polyline(p[0], closed=p[1])
    if x.kind == 'box':
        return Box(*p)
    if x.kind == 'mesh':
        return Mesh(*p)
    if x.kind == 'value':
        return Value(*p)
    if x.kind == 'ch':
        return ch.array(p[0])
    if x.kind == 'sparse':
        return stored_zeros(np.array(p[1]), p[2]).asformat(p[0]) if len(p) > 2 else sp.csr_matrix(np.array(p[1])).asformat(p[0])
    if x.kind == 'blocks':
        return sb.StaticBlockSparseMatrix(sp.csr_matrix(np.array(p[0])), **p[1])
    if x.kind in ('transform', 'manager'):
        t = CompositeTransform() if x.kind == 'transform' else CoordinateManager()
        if x.kind == 'manager':
            t.tag_as('start')
        for k, (name, args) in enumerate(p[0]):
            getattr(t, name)(*args)
            if x.kind == 'manager':
                t.tag_as('after%d' % k)
        if x.kind == 'manager' and len(p) > 1:
            setattr(t, p[2], p[1])
        return t
    raise AssertionError(x.kind)


def state(x):
    """Everything a caller can see of an argument, copied."""
    if isinstance(x, np.ndarray):
        return ('array', x.shape, x.dtype.str, x.tobytes(), x.flags.writeable)
    if sp.issparse(x):
        return ('sparse', x.format, x.shape, x.dtype.str) + tuple(
            getattr(x, a).tobytes() for a in ('data', 'indices', 'indptr', 'row', 'col') if isinstance(getattr(x, a, None), np.ndarray) and getattr(x, a).dtype != object) + (x.toarray().tobytes(),)
    if isinstance(x, (list, tuple)):
        return (type(x).__name__,) + tuple(state(y) for y in x)
    if isinstance(x, dict):
        return ('dict',) + tuple((k, state(x[k])) for k in sorted(x))
    if isinstance(x, Plane):
        return ('plane', state(np.array(x.reference_point)), state(np.array(x.normal)))
    if isinstance(x, Polyline):
        return ('polyline', state(np.array(x.v)), x.closed, state(np.array(x.e)))
    if isinstance(x, Box):
        return ('box', state(np.array(x.origin)), state(np.array(x.shape)))
    if isinstance(x, Mesh):
        return ('mesh', state(x.v), state(x.f))
    if isinstance(x, Value):
        return ('value', repr(x.value), x.units)
    if isinstance(x, ch.Ch):
        return ('ch', state(np.array(x.r)))
    if isinstance(x, sb.StaticBlockSparseMatrix):
        return ('blocks', state(x.M), state(np.array(x.row_sparsity)), state(np.array(x.block_dd)))
    if isinstance(x, CompositeTransform):
        probe = np.array([[1., 2., 3.], [-4., 0.5, 7.]])
        return ('transform', state(np.array(x.matrix_for())), state(np.array(x(probe, reverse=True))))
    if isinstance(x, CoordinateManager):
        probe = np.array([[1., 2., 3.], [-4., 0.5, 7.]])
        return ('manager', state(np.array(x.do_transform(probe, 'start', 'after0'))), state(np.array(x.do_transform(probe, 'after0', 'start'))))
    return repr(x) if not callable(x) else 'callable'


# ---- results

def frozen(x):
    if isinstance(x, np.ndarray):
        return np.array(x)
    if isinstance(x, np.generic):
        return x.item()
    if sp.issparse(x):
        return ('sparse', x.shape, x.toarray())
    if isinstance(x, (list, tuple)):
        return [frozen(y) for y in x]
    if isinstance(x, dict):
        return dict((k, frozen(y)) for k, y in x.items())
    if isinstance(x, (type({}.keys()), type({}.values()), set, frozenset)):
        return sorted(map(str, x))
    if isinstance(x, Plane):
        return ['plane', np.array(x.reference_point), np.array(x.normal)]
    if isinstance(x, Polyline):
        return ['polyline', None if x.v is None else np.array(x.v), x.closed, None if x.e is None else np.array(x.e)]
    if isinstance(x, Value):
        return ['value', float(x.value), x.units]
    if isinstance(x, ch.Ch):
        return ['ch', np.array(x.r)]
    if isinstance(x, (CompositeTransform, CoordinateManager, sb.StaticBlockSparseMatrix)):
        return state(x)
    if isinstance(x, Mesh):
        return ['mesh', np.array(x.v), np.array(x.f)]
    return x


def differ(a, b, rel):
    """None, or where two frozen results differ."""
    if isinstance(a, np.ndarray) or isinstance(b, np.ndarray):
        if not (isinstance(a, np.ndarray) and isinstance(b, np.ndarray)) or a.shape != b.shape:
            return 'shape %s against %s' % (np.shape(a), np.shape(b))
        if a.dtype.kind not in 'fiub' or b.dtype.kind not in 'fiub':
            return None if a.tolist() == b.tolist() else 'values'
        if a.dtype.kind != 'f' and b.dtype.kind != 'f':
            return None if np.array_equal(a, b) else '%s against %s' % (a.ravel()[:6].tolist(), b.ravel()[:6].tolist())
        fa, fb = np.isfinite(a), np.isfinite(b)
        if not np.array_equal(fa, fb):
            return 'finiteness'
        big = max([1e-300] + [float(np.abs(t[m]).max()) for t, m in ((a, fa), (b, fb)) if m.any()])
        d = float(np.abs(a[fa] - b[fb]).max()) if fa.any() else 0.
        return None if d <= rel * big else 'by %g: %s against %s' % (d, a.ravel()[:6].tolist(), b.ravel()[:6].tolist())
    if isinstance(a, (list, tuple)):
        if not isinstance(b, (list, tuple)) or len(a) != len(b):
            return 'length %s against %s' % (len(a), len(b) if hasattr(b, '__len__') else b)
        for x, y in zip(a, b):
            d = differ(x, y, rel)
            if d:
                return d
        return None
    if isinstance(a, dict):
        if not isinstance(b, dict) or sorted(a) != sorted(b):
            return 'keys %s against %s' % (sorted(a), sorted(b) if isinstance(b, dict) else b)
        for k in a:
            d = differ(a[k], b[k], rel)
            if d:
                return d
        return None
    if isinstance(a, float) and isinstance(b, (float, int)) or isinstance(b, float) and isinstance(a, (float, int)):
        return differ(np.array([float(a)]), np.array([float(b)]), rel)
    if type(a) is not type(b) or a != b:
        return '%r against %r' % (a, b)
    return None


def arrays_in(x):
    if isinstance(x, np.ndarray):
        yield x
    elif sp.issparse(x):
        for a in ('data', 'indices', 'indptr', 'row', 'col'):
            if isinstance(getattr(x, a, None), np.ndarray):
                yield getattr(x, a)
    elif isinstance(x, (list, tuple)):
        for y in x:
            for a in arrays_in(y):
                yield a
    elif isinstance(x, dict):
        for y in x.values():
            for a in arrays_in(y):
                yield a
    elif isinstance(x, Plane):
        yield x.reference_point
        yield x.normal
    elif isinstance(x, Polyline):
        if x.v is not None:
            yield x.v
        if x.e is not None:
            yield x.e
    elif isinstance(x, Mesh):
        yield x.v
        yield x.f


def vandalize(x):
    """Overwrite everything in a result that a caller may write to."""
    for a in list(arrays_in(x)):
        if a.flags.writeable and a.size and a.dtype.kind in 'fiub':
            a[...] = 7 if a.dtype.kind != 'f' else -12345.678
    if isinstance(x, list):
        x.append('junk')
    elif isinstance(x, dict):
        x.clear()
        x['length'] = 'junk'
    elif isinstance(x, Value):
        x._value = -99.0 if hasattr(x, '_value') else None


# ---- the calls

OPS = []


def op(name, make, fn, alias=False, slow=False):
    """alias: the result may share memory with an argument (views, pass-through)."""
    OPS.append((name, make, fn, alias))


def P3(g, n=None):
    return g.rng.normal(size=(n or g.integer(2, 9), 3))


def v3(g):
    return g.rng.normal(size=3)


def plane(g, near=0.2):
    n = v3(g)
    return Obj('plane', g.rng.normal(size=3) * near, n / np.linalg.norm(n))


def poly(g, closed=None, n=None):
    return Obj('polyline', P3(g, n or g.integer(3, 12)), g.chance(0.5) if closed is None else closed)


def rot(g):
    return g.axis_angle(g.rng.normal(size=3), g.rng.uniform(0.1, 3))


def mesh(g):
    class C(object):
        pass
    c = C()
    c.g, c.rng = g, g.rng
    m, _ = meshes.mesh(c)
    return m


def cut_mesh(g):
    m = mesh(g)
    n = v3(g)
    lo, hi = m.v.min(axis=0), m.v.max(axis=0)
    used = m.v[np.asarray(m.f[g.integer(0, len(m.f) - 1)], int)]
    w = g.rng.uniform(0.2, 0.8, size=3)
    return m, Obj('plane', np.dot(w / w.sum(), used), n / np.linalg.norm(n))


def steps(g):
    def one():
        k = g.pick(STEPS)
        if k == 'translate':
            return k, (v3(g),)
        if k == 'scale':
            return k, (float(g.rng.uniform(0.5, 2)),)
        if k == 'rotate':
            return k, (g.pick([lambda: rot(g), lambda: v3(g)])(),)
        if k == 'reorient':
            return k, (v3(g), v3(g))
        if k == 'append_transform3':
            m = rot(g) + 0.1 * g.rng.normal(size=(3, 3))
            return k, (m,) if g.chance(0.5) else (m, np.linalg.inv(m))
        if k == 'append_transform4':
            m = np.eye(4)
            m[:3, :3], m[:3, 3] = rot(g), v3(g)
            return k, (m,) if g.chance(0.5) else (m, np.linalg.inv(m))
        return k, tuple(g.pick([('cm', 'm'), ('in', 'cm'), ('m', 'ft')]))
    return [one() for _ in range(g.integer(1, 5))]


def spd(g, n=None):
    n = n or g.integer(2, 12)
    A = g.rng.normal(size=(n, n)) * (g.rng.random((n, n)) < 0.4)
    A = (A + A.T) / 2
    return A + np.eye(n) * (np.abs(A).sum(axis=1).max() + 1)


def lines3(g):
    x = v3(g)
    d, e = v3(g), v3(g)
    return [x + d, x - 0.7 * d, x + 0.4 * e, x - 2 * e]


# vectors
for _name in ('normalize', 'magnitude'):
    op('vx.' + _name, lambda g: [v3(g) if g.chance(0.5) else P3(g)], getattr(vx, _name))
op('vx.sproj', lambda g: [v3(g) if g.chance(0.5) else P3(g), v3(g)], lambda a, b: vx.sproj(a, onto=b))
op('vx.proj', lambda g: [v3(g), v3(g)], lambda a, b: vx.proj(a, onto=b))
op('vx.reject', lambda g: [v3(g), v3(g)], lambda a, b: vx.reject(a, from_v=b))
op('vx.reject_axis', lambda g: [P3(g) if g.chance(0.5) else v3(g), g.integer(0, 2), g.chance(0.5)], lambda a, k, s: vx.reject_axis(a, axis=k, squash=s))
op('vx.angle', lambda g: [v3(g), v3(g), v3(g)], vx.angle)
op('vx.signed_angle', lambda g: [v3(g), v3(g), v3(g)], vx.signed_angle)
op('vx.almost_zero', lambda g: [v3(g) * g.pick([0, 1e-9, 1])], vx.almost_zero)
op('vx.almost_collinear', lambda g: [v3(g), v3(g)], vx.almost_collinear)
op('vx.pad_with_ones', lambda g: [P3(g)], vx.pad_with_ones)
op('vx.unpad', lambda g: [np.column_stack([P3(g, 5), np.ones(5)])], vx.unpad)
op('vx.apply_homogeneous', lambda g: [P3(g), np.vstack([g.rng.normal(size=(3, 4)), [0, 0, 0, 1]])], vx.apply_homogeneous)
for _name in ('x', 'y', 'z', 'neg_x', 'neg_y', 'neg_z'):
    op('vx.basis.' + _name, lambda g: [], lambda _n=_name: getattr(vx.basis, _n))
# planes
op('Plane', lambda g: [v3(g), v3(g) * g.pick([1, 10])], lambda p, n: Plane(p, n), alias=True)
op('Plane.from_points', lambda g: [v3(g), v3(g), v3(g)], Plane.from_points, alias=True)
op('Plane.from_points_and_vector', lambda g: [v3(g), v3(g), v3(g)], Plane.from_points_and_vector, alias=True)
op('Plane.fit_from_points', lambda g: [P3(g, g.integer(4, 20)) * [3, 2, 0.1]], Plane.fit_from_points)
op('Plane.equation', lambda g: [plane(g)], lambda p: p.equation)
op('Plane.canonical_point', lambda g: [plane(g)], lambda p: p.canonical_point)
op('Plane.flipped', lambda g: [plane(g)], lambda p: p.flipped(), alias=True)
for _name in ('sign', 'signed_distance', 'distance'):
    op('Plane.' + _name, lambda g: [plane(g), P3(g) if g.chance(0.6) else v3(g)], lambda p, x, _n=_name: getattr(p, _n)(x))
op('Plane.points_in_front', lambda g: [plane(g), P3(g, 9), g.chance(0.5), g.chance(0.5)], lambda p, x, i, r: p.points_in_front(x, inverted=i, ret_indices=r))
op('Plane.project_point', lambda g: [plane(g), v3(g)], lambda p, x: p.project_point(x))
op('Plane.polyline_xsection', lambda g: [plane(g), poly(g, n=9), g.chance(0.5)], lambda p, x, r: p.polyline_xsection(x, ret_edge_indices=r))
op('Plane.line_xsection', lambda g: [plane(g), v3(g), v3(g)], lambda p, a, b: p.line_xsection(a, b))
op('Plane.line_segment_xsection', lambda g: [plane(g), v3(g), v3(g)], lambda p, a, b: p.line_segment_xsection(a, b))


def rays(g, p):
    """Some of them parallel to the plane, and rows of a larger array."""
    a = P3(g, 13)[::2][:6] if g.chance(0.5) else P3(g, 6)
    if g.chance(0.4):
        n = np.zeros(3)
        k = g.integer(0, 2)
        n[k] = 1.
        p = Obj('plane', g.rng.normal(size=3) * 0.2, n)
        a[g.rng.random(6) < 0.5, k] = 0.
    return p, a


def plane_and_rays(g):
    p, a = rays(g, plane(g))
    return [p, P3(g, 6), a]


op('Plane.line_xsections', plane_and_rays, lambda p, a, b: p.line_xsections(a, b))
op('Plane.line_segment_xsections', lambda g: [plane(g), P3(g, 6), P3(g, 6)], lambda p, a, b: p.line_segment_xsections(a, b))


def _mesh_args(g):
    m, p = cut_mesh(g)
    return [p, Obj('mesh', m.v, m.f)]


op('Plane.mesh_xsection', _mesh_args, lambda p, m: p.mesh_xsection(m))
op('Plane.mesh_xsections', _mesh_args, lambda p, m: p.mesh_xsections(m))
op('Plane.mesh_xsections near', lambda g: _mesh_args(g) + [P3(g, g.integer(1, 4))], lambda p, m, n: p.mesh_xsections(m, neighborhood=n))
op('Plane.mesh_xsection near', lambda g: _mesh_args(g) + [P3(g, g.integer(1, 4))], lambda p, m, n: p.mesh_xsection(m, neighborhood=n))
op('Plane.mesh_intersecting_faces', _mesh_args, lambda p, m: p.mesh_intersecting_faces(m))
# boxes
for _name in ('ranges', 'min_x', 'min_y', 'min_z', 'max_x', 'max_y', 'max_z', 'mid_x', 'mid_y', 'mid_z', 'width', 'height', 'depth', 'center_point', 'floor_point', 'volume', 'surface_area'):
    op('Box.' + _name, lambda g: [Obj('box', v3(g), np.abs(v3(g)) + 0.1)], lambda b, _n=_name: getattr(b, _n))
# polylines
op('Polyline.copy', lambda g: [poly(g)], lambda p: p.copy())
op('Polyline.segments', lambda g: [poly(g)], lambda p: p.segments)
op('Polyline.segment_lengths', lambda g: [poly(g)], lambda p: p.segment_lengths)
op('Polyline.segment_vectors', lambda g: [poly(g)], lambda p: p.segment_vectors)
op('Polyline.total_length', lambda g: [poly(g)], lambda p: p.total_length)
op('Polyline.to_dict', lambda g: [poly(g), g.integer(1, 6)], lambda p, d: p.to_dict(decimals=d), alias=True)  # 'edges' is the polyline's own array
op('Polyline.reindexed', lambda g: [poly(g, True, 7), g.integer(0, 6), g.chance(0.5)], lambda p, i, r: p.reindexed(i, ret_edge_mapping=r))
op('Polyline.apex', lambda g: [poly(g), v3(g)], lambda p, a: p.apex(a), alias=True)
op('Polyline.intersect_plane', lambda g: [poly(g, n=9), plane(g), g.chance(0.5)], lambda p, q, r: p.intersect_plane(q, ret_edge_indices=r))


def _cut_args(g):
    # one plane crossing of an open line, two of a closed convex loop
    k = g.integer(5, 12)
    if g.chance(0.5):
        t = np.sort(g.rng.uniform(-1, 1, size=k))
        v = np.column_stack([t * 3, np.sin(t), t ** 2]) + 0.0
        n = np.array([1., 0.05, 0.02])
        at = np.array([3 * g.rng.uniform(t[0] * 0.5, t[-1] * 0.5) if t[0] < 0 < t[-1] else 3 * (t[0] + t[-1]) / 2, 0, 0])
        closed = False
    else:
        a = np.sort(g.rng.uniform(0, 2 * np.pi, size=k))
        v = np.column_stack([np.cos(a), np.sin(a), 0 * a])
        n = np.array([np.cos(g.rng.uniform(0, 6)), 0.6, 0.1])
        at = v.mean(axis=0)
        closed = True
    R = rot(g)
    n = n / np.linalg.norm(n)
    if g.chance(0.5):
        n = -n
    return [Obj('polyline', v.dot(R), closed), Obj('plane', at.dot(R), n.dot(R))]


op('Polyline.cut_by_plane', _cut_args, lambda p, q: p.cut_by_plane(q))
op('Polyline.flip of a copy', lambda g: [poly(g)], lambda p: (lambda q: (q.flip(), q)[1])(p.copy()))
op('Polyline.partition of a copy', lambda g: [poly(g), float(g.rng.uniform(0.2, 2))], lambda p, m: (lambda q: [q.partition_by_length(m, ret_indices=True), q])(p.copy()))
op('Polyline of an array, flipped', lambda g: [P3(g), g.chance(0.5)], lambda v, c: (lambda q: (q.flip(), q)[1])(Polyline(v, closed=c)), alias=True)
op('Polyline of an array, partitioned', lambda g: [P3(g), g.chance(0.5)], lambda v, c: Polyline(v, closed=c).partition_by_length(0.5), alias=True)
# segments and curves
op('partition', lambda g: [P3(g, g.integer(2, 5)), g.pick([1, 2, 5])], lambda v, k: segment.partition(v, partition_size=k))
op('partition_segment', lambda g: [v3(g), v3(g), g.integer(2, 9), g.chance(0.5)], lambda a, b, k, e: segment.partition_segment(a, b, k, endpoint=e))
op('partition_segment_old', lambda g: [v3(g), v3(g), g.integer(2, 9)], lambda a, b, k: segment.partition_segment_old(a, b, k))
op('line_intersect', lambda g: [g.rng.normal(size=2) for _ in range(4)], segment.line_intersect)
op('line_intersect3', lines3, segment.line_intersect3)
op('apex', lambda g: [P3(g), v3(g)], apex_module.apex, alias=True)
op('inflection_points', lambda g: [np.column_stack([np.linspace(0, 9, 40) + g.rng.normal(size=40) * 0.01, np.sin(np.linspace(0, 9, 40) * 1.1 + g.rng.uniform(0, 3)), np.zeros(40)]),
                                   np.array([0., 1., 0.]), np.array([1., 0., 0.])], apex_module.inflection_points)
op('farthest', lambda g: [v3(g), P3(g)], apex_module.farthest, alias=True)
op('barycentric', lambda g: [P3(g, 6), P3(g, 6), P3(g, 6), P3(g, 6)] if g.chance(0.5) else [v3(g), v3(g), v3(g), v3(g)], barycentric.barycentric_coordinates_of_projection)


def _planar_poly(g):
    k = g.integer(4, 12)
    return Obj('polyline', np.column_stack([g.rng.normal(size=(k, 2)), np.zeros(k)]).dot(rot(g)) + v3(g), True)


op('convexify', lambda g: [_planar_poly(g), g.chance(0.5), g.chance(0.5)], lambda p, f, w: convexify.convexify_planar_curve(p, flatten=f, want_vertices=w))
op('convexify_and_flatten', lambda g: [_planar_poly(g), g.chance(0.5)], lambda p, w: convexify.convexify_and_flatten_planar_curve(p, want_vertices=w))
op('surface_normal', lambda g: [g.rng.normal(size=(5, 3, 3)) if g.chance(0.5) else P3(g, 3), g.chance(0.5)], lambda p, n: surface_normals.surface_normal(p, normalize=n))
op('rectangular prism', lambda g: [v3(g), np.abs(v3(g)) + 0.1, g.chance(0.5)], lambda o, s, r: shapes.create_rectangular_prism(o, s, ret_unique_vertices_and_faces=r))
op('cube', lambda g: [v3(g), float(g.rng.uniform(1, 3)), g.chance(0.5)], lambda o, s, r: shapes.create_cube(o, s, ret_unique_vertices_and_faces=r))
op('triangular prism', lambda g: [v3(g), v3(g), v3(g), float(g.rng.uniform(1, 3)), g.chance(0.5)], lambda a, b, d, h, r: shapes.create_triangular_prism(a, b, d, h, ret_unique_vertices_and_faces=r))
op('horizontal plane', lambda g: [g.chance(0.5)], lambda r: shapes.create_horizontal_plane(ret_unique_vertices_and_faces=r))
# transformations
op('translation', lambda g: [P3(g)] + ([v3(g)] if g.chance(0.5) else []), translation.translation, alias=True)
op('estimate_normal', lambda g: [np.column_stack([g.rng.normal(size=(9, 2)), np.zeros(9)]).dot(rot(g))], rotation.estimate_normal)
def _planar_with_normal(g):
    """Points of a plane and its normal, of unit length up to rounding or a little more."""
    r = rot(g)
    p = np.column_stack([g.rng.normal(size=(9, 2)), np.zeros(9)]).dot(r) + g.pick([0, 1]) * v3(g)
    return p, r[2] * (1 + g.pick([0, 1e-15, 1e-12, -3e-10])) * g.pick([1, -1])


op('rotate_to_xz_plane, normal given', lambda g: list(_planar_with_normal(g)), lambda p, n: rotation.rotate_to_xz_plane(p, normal=n))
op('convexify, normal given', lambda g: (lambda pn: [Obj('polyline', pn[0], True), pn[1], g.chance(0.5)])(_planar_with_normal(g)), lambda p, n, f: convexify.convexify_planar_curve(p, flatten=f, normal=n))
op('convexify_and_flatten, normal given', lambda g: (lambda pn: [Obj('polyline', pn[0], True), pn[1]])(_planar_with_normal(g)), lambda p, n: convexify.convexify_and_flatten_planar_curve(p, normal=n))
op('rotate_to_xz_plane', lambda g: [np.column_stack([g.rng.normal(size=(9, 2)), np.zeros(9)]).dot(rot(g))], rotation.rotate_to_xz_plane)
op('rotation_from_up_and_look', lambda g: [v3(g), v3(g)], rotation_from_up_and_look)
op('euler', lambda g: [g.rng.normal(size=3) * g.pick([1, 50]), g.pick(['xyz', 'zyx', 'yxz', 'zxy']), g.pick(['deg', 'rad'])], rotation.euler)
op('rodrigues', lambda g: [g.pick([lambda: v3(g), lambda: v3(g).reshape(3, 1), lambda: rot(g), lambda: v3(g) * 1e-9])(), g.chance(0.5)], lambda r, j: rodrigues.rodrigues(r, calculate_jacobian=j))
op('as_rotation_matrix', lambda g: [g.pick([lambda: v3(g), lambda: v3(g).reshape(3, 1), lambda: rot(g)])()], rodrigues.as_rotation_matrix, alias=True)
op('find_rigid_transform', lambda g: (lambda p: [p, rot(g).dot(p) + v3(g)[:, None] + 0.01 * g.rng.normal(size=(3, 7))])(P3(g, 7).T.copy()), find_rigid_transform)
op('find_rigid_rotation', lambda g: [P3(g, 7).T.copy(), P3(g, 7).T.copy(), g.chance(0.5)], lambda a, b, s: find_rigid_rotation(a, b, allow_scaling=s))
op('convert_33_to_44', lambda g: [g.rng.normal(size=(3, 3))], composite.convert_33_to_44)
op('convert_44_to_33', lambda g: [g.rng.normal(size=(4, 4))], composite.convert_44_to_33, alias=True)
op('CompositeTransform()', lambda g: [Obj('transform', steps(g)), P3(g), g.chance(0.5)], lambda t, p, r: t(p, reverse=r))
op('CompositeTransform.matrix_for', lambda g: [Obj('transform', steps(g)), g.chance(0.5)], lambda t, r: t.matrix_for(reverse=r))
op('CompositeTransform.matrix_for one', lambda g: [Obj('transform', steps(g)), g.chance(0.5)], lambda t, r: t.matrix_for(from_range=(0, 1), reverse=r))
op('CompositeTransform built', lambda g: [steps(g), P3(g)], lambda s, p: (lambda t: ([getattr(t, n)(*a) for n, a in s], t(p))[1])(CompositeTransform()))
op('CoordinateManager.do_transform', lambda g: [Obj('manager', steps(g)), P3(g), g.chance(0.5)], lambda m, p, r: m.do_transform(p, *(('after0', 'start') if r else ('start', 'after0'))))
op('CoordinateManager read', lambda g: [Obj('manager', steps(g), P3(g), 'start')], lambda m: m.after0)
op('CoordinateManager read back', lambda g: [Obj('manager', steps(g), P3(g), 'after0')], lambda m: m.start)
op('CoordinateManager mesh', lambda g: [Obj('manager', steps(g)), Obj('mesh', P3(g, 5), np.array([[0, 1, 2], [2, 3, 4]]))], lambda m, x: m.do_transform(x, 'start', 'after0'), alias=True)
# linear algebra
op('orthogonalize', lambda g: [g.rng.normal(size=(3, 4))], gram_schmidt.orthogonalize)
op('orthonormalize', lambda g: [g.rng.normal(size=(3, 4))] + ([[0, 2]] if g.chance(0.5) else []), gram_schmidt.orthonormalize)
op('isomorphism', lambda g: [g.rng.normal(size=(3, 3)), g.rng.normal(size=(3, 3))], isomorphism.isomorphism)
def some_sparse(g, formats, n=None):
    A = spd(g, n)
    if g.chance(0.5):
        return Obj('sparse', g.pick(formats), A)
    w = g.rng.random(A.shape) < 0.3
    return Obj('sparse', g.pick(formats), A, w | w.T)


op('lchol', lambda g: [some_sparse(g, ['csc', 'csr'])], lambda A: [x if not sp.issparse(x) else x.toarray() for x in lchol.lchol(A)])
op('block_sparse_cg_solve', lambda g: (lambda A: [A, g.rng.normal(size=len(A.parts[1]))])(some_sparse(g, ['csr'])), sparse_cg.block_sparse_cg_solve)
op('mask rows', lambda g: [some_sparse(g, ['csr'], 5), np.array([True, False, True, True, False])], sb.mask_sparse_matrix_by_rows)
op('mask columns', lambda g: [some_sparse(g, ['csc'], 5), np.array([True, False, True, True, False])], sb.mask_sparse_matrix_by_columns)
op('blocks matvec', lambda g: [Obj('blocks', spd(g, 6), {}), g.rng.normal(size=6)], lambda B, v: B.matvec(v))
op('blocks attributes', lambda g: [Obj('blocks', spd(g, 6), {})], lambda B: (B.shape, np.array(B.row_sparsity)))
op('blocks matmat', lambda g: [Obj('blocks', spd(g, 6), {}), g.rng.normal(size=(6, 3))], lambda B, v: B.matmat(v))
op('blocks MMT', lambda g: [Obj('blocks', spd(g, 6), {'row_sparsity': np.array([1, 0, 1, 1, 0, 1], bool)})], lambda B: B.MMT())
op('blocks MTM', lambda g: [Obj('blocks', spd(g, 6), {})], lambda B: B.MTM())
op('blocks conjGradSolve', lambda g: [Obj('blocks', spd(g, 6), {}), g.rng.normal(size=6)] + ([g.rng.normal(size=6)] if g.chance(0.5) else []), lambda B, b, *x: B.conjGradSolve(b, *x)[0])
# numbers
op('as_numeric_array', lambda g: [P3(g, 4), g.pick([None, (4, 3), (3, 4), (-1, 3)])], lambda a, s: coercion.as_numeric_array(a, shape=s), alias=True)
op('isnumeric', lambda g: [P3(g)], predicates.isnumeric)
op('isnumericarray', lambda g: [P3(g)], predicates.isnumericarray)
op('is_empty_arraylike', lambda g: [P3(g)], predicates.is_empty_arraylike)
op('rounded_list', lambda g: [g.rng.normal(size=4).tolist() + [None], g.integer(0, 4)], rounding.rounded_list)
op('round_to', lambda g: [float(g.rng.normal()), 0.05], rounding.round_to)
op('scale_to_range', lambda g: [g.rng.normal(size=(3, 4)), 0., 5.], operations.scale_to_range)
op('zero_safe_divide', lambda g: [g.rng.normal(size=(3, 4)), g.rng.normal(size=(3, 4)) * (g.rng.random((3, 4)) < 0.6)], operations.zero_safe_divide)
op('bsxfun', lambda g: [g.rng.normal(size=(1, 4)), g.rng.normal(size=(3, 1))] if g.chance(0.5) else [g.rng.normal(size=(3, 4)), g.rng.normal(size=(1, 4))], lambda a, b: matlab.bsxfun(np.subtract, a, b))
op('row', lambda g: [P3(g)], matlab.row, alias=True)
op('col', lambda g: [P3(g)], matlab.col, alias=True)
op('sparse', lambda g: [np.array([0, 1, 1, 2]), np.array([2, 0, 0, 1]), g.rng.normal(size=4), 4, 5], matlab.sparse, alias=True)
# normals
_F = np.array([[0, 1, 2], [2, 1, 3], [3, 4, 0]])
op('TriNormals', lambda g: [Obj('ch', P3(g, 5)), _F], lambda v, f: [normals.TriNormals(v, f).r, normals.TriNormals(v, f).dr_wrt(v).toarray()], alias=True)
op('TriNormalsScaled', lambda g: [Obj('ch', P3(g, 5)), _F], lambda v, f: normals.TriNormalsScaled(v, f).r, alias=True)
op('VertNormals', lambda g: [Obj('ch', P3(g, 5)), _F, g.chance(0.5)], lambda v, f, n: [normals.VertNormals(v=v, f=f, normalized=n).r, normals.VertNormals(v=v, f=f, normalized=n).dr_wrt(v).toarray()], alias=True)
# units and values


def _pair(g):
    k = g.pick(['length', 'weight', 'time', 'angle'])
    names = [n for n in unitdefs.NAMES if unitdefs.KIND[n] == k]
    return g.pick(names), g.pick(names)


op('units.convert', lambda g: (lambda p: [g.pick([lambda: float(g.rng.normal()), lambda: P3(g)])(), p[0], p[1]])(_pair(g)), units.convert, alias=True)
op('units.convert_list', lambda g: (lambda p: [g.rng.normal(size=4).tolist(), p[0], p[1]])(_pair(g)), units.convert_list)
op('units.factor', lambda g: list(_pair(g)), units.factor)
op('units.convert_to_default', lambda g: [float(g.rng.normal()), 'ft', {'length': g.pick(['cm', 'm', 'in'])}], units.convert_to_default)
op('units.convert_to_system_default', lambda g: [float(g.rng.normal()), g.pick(['ft', 'kg', 'min']), g.pick(['metric', 'united_states'])], units.convert_to_system_default)
op('units.default_units', lambda g: [g.pick(['metric', 'united_states'])] + ([{'length': g.pick(['ft', 'm']), 'weight': 'stone'}] if g.chance(0.5) else []), units.default_units)
op('units.prettify', lambda g: [float(g.rng.uniform(1, 200)), g.pick(['cm', 'in', 'kg', 'lb', 'deg'])], units.prettify)
op('units.units_in_class', lambda g: [g.pick(['length', 'weight', 'angle', 'time', 'time_rate'])], units.units_in_class)
for _name in ('lengths', 'weights', 'angles', 'times', 'time_rates', 'all_units_classes'):
    op('units.' + _name, lambda g: [], lambda _n=_name: sorted(getattr(units, _n)))  # the module's own tables: read, not written
op('units.all_units', lambda g: [], lambda: sorted(units.all_units))
op('Value.convert', lambda g: (lambda p: [Obj('value', float(g.rng.normal()), p[0]), p[1]])(_pair(g)), lambda v, u: v.convert(u))
op('Value arithmetic', lambda g: (lambda p: [Obj('value', float(g.rng.normal()), p[0]), Obj('value', float(g.rng.uniform(1, 2)), p[1])])(_pair(g)), lambda a, b: [a + b, a - b, a * 3, -a, abs(a), a / 2.0, a < b, a == b])
op('Value.round', lambda g: [Obj('value', float(g.rng.uniform(1, 200)), 'cm')], lambda v: [v.round(0.5), v.prettified, v.for_json()])
op('Value default', lambda g: [Obj('value', float(g.rng.uniform(1, 200)), g.pick(['cm', 'ft', 'lb']))], lambda v: [v.convert_to_system_default('metric'), v.convert_to_system_default('united_states'), str(v), repr(v), float(v)])
op('json round trip', lambda g: [{'a': Obj('value', float(g.rng.normal()), 'cm'), 'b': [1, 2.5, None]}], lambda d: bljson.loads(bljson.dumps(d)))
op('json dumps', lambda g: [{'a': P3(g, 2).tolist(), 'b': Obj('value', float(g.rng.normal()), 'cm')}], lambda d: bljson.dumps(d, sort_keys=True))


def setup():
    import sys
    import types
    if 'lace.topology' not in sys.modules:
        try:
            import lace.topology  # noqa
        except ImportError:
            lace, top = types.ModuleType('lace'), types.ModuleType('lace.topology')

            def quads_to_tris(q):
                q = np.asarray(q)
                out = np.empty((2 * len(q), 3), q.dtype)
                out[0::2], out[1::2] = q[:, [0, 1, 2]], q[:, [0, 2, 3]]
                return out
            top.quads_to_tris, lace.topology = quads_to_tris, top
            sys.modules['lace'], sys.modules['lace.topology'] = lace, top


# ---- running a call

def world():
    s = np.random.get_state()
    return (sorted(np.geterr().items()), zlib.crc32(s[1].tobytes()), s[2], sorted((k, repr(v)) for k, v in np.get_printoptions().items()),
            list(warnings.filters), random.getstate(), os.getcwd(), dict(os.environ), sys.getrecursionlimit(), decimal.getcontext().prec)


def perform(c, o, recipe, lay, label):
    """Call once; arguments must come out as they went in. Returns (outcome, result, args)."""
    name, _, fn, _ = o
    args = realize(recipe, lay)
    before = [state(a) for a in args]
    w = world()
    c.stats.calls[name] = c.stats.calls.get(name, 0) + 1
    try:
        result = fn(*args)
        outcome = ('returned', frozen(result))
    except Exception as e:
        result, outcome = None, ('raised', type(e).__name__, str(e)[:200])
    for i, (a, b) in enumerate(zip(args, before)):
        if state(a) != b:
            raise Violation('%s changed its argument %d (%s)' % (name, i, label))
    c.stats.assertions += len(args)
    c.check(world() == w, '%s changed numpy\'s global state', name)
    return outcome, result, args


def same(c, name, got, want, rel, label):
    c.stats.assertions += 1
    if got[0] != want[0]:
        raise Violation('%s %s: %s, first %s' % (name, label, str(got)[:200], str(want)[:200]))
    if got[0] == 'returned':
        d = differ(got[1], want[1], rel)
        if d:
            raise Violation('%s %s: differs %s' % (name, label, d))


def plain(x):
    return np.array(x, order='C')


def reused(c, o, recipe):
    """The caller keeps its arrays and writes something else into them: the answer is that for
    fresh arrays of the same content."""
    g = c.g
    name, make, fn, _ = o
    args, fresh = realize(recipe, plain), realize(recipe, plain)
    slots = [i for i, a in enumerate(args) if (isinstance(a, np.ndarray) and a.dtype.kind == 'f' and a.size) or (sp.issparse(a) and a.format in ('csr', 'csc', 'coo') and a.dtype.kind == 'f')]
    if not slots:
        return
    try:
        fn(*args)
    except Exception:
        return
    other = realize(make(g), plain)
    for i in slots:
        if len(other) == len(args) and isinstance(args[i], np.ndarray) and isinstance(other[i], np.ndarray) and other[i].shape == args[i].shape and g.chance(0.6):
            new = np.array(other[i], dtype=args[i].dtype)
        else:
            how = g.pick(['same', 'twice', 'reversed', 'rolled', 'negative'])
            a = args[i].data if sp.issparse(args[i]) else args[i]
            new = {'same': a, 'twice': 2 * a, 'reversed': a[::-1], 'rolled': np.roll(a, 1, axis=0), 'negative': -a}[how].copy()
        for q in (args[i], fresh[i]):
            if sp.issparse(q):
                q.data[:] = new
            else:
                q[...] = new
    out = []
    with np.errstate(all='ignore'):
        for q in (args, fresh):
            try:
                out.append(('returned', frozen(fn(*q))))
            except Exception as e:
                out.append(('raised', type(e).__name__))
    c.bucket('arguments rewritten')
    same(c, name, out[0], out[1], 1e-12, 'on arguments rewritten in place')


def history(c, o):
    g = c.g
    name, make, fn, alias = o
    recipe = c.input('arguments of ' + name, make(g))
    c._h.update(repr([x if not isinstance(x, np.ndarray) else x.tolist() for x in recipe]).encode())
    first, result, args = perform(c, o, recipe, plain, 'plain arrays')
    if first[0] == 'raised':
        raise Violation('%s raised %s: %s' % (name, first[1], first[2]))
    c.bucket(name)
    # the same object, asked again
    try:
        again = fn(*args)
    except Exception as e:
        raise Violation('%s asked twice on the same arguments raised %r' % (name, e))
    same(c, name, ('returned', frozen(again)), first, 1e-12, 'asked twice on the same arguments')
    # the caller overwrites what it was given; its arguments are its own affair only if not shared
    held = [state(a) for a in args]
    shared = any(np.may_share_memory(x, y) and np.shares_memory(x, y) for x in arrays_in(result) for y in arrays_in(args))
    vandalize(result)
    if not alias:
        c.check(not shared and [state(a) for a in args] == held, '%s: overwriting the result overwrites the arguments', name)
        same(c, name, ('returned', frozen(fn(*args))), first, 1e-12, 'asked again after its first result was overwritten')
    reused(c, o, recipe)
    # anything else happens meanwhile
    others = []
    for _ in range(g.integer(1, 4)):
        q = g.pick(OPS) if g.chance(0.7) else o
        others.append(q[0])
        r = q[1](g)
        out, res, _ = perform(c, q, r, plain if g.chance(0.5) else g.layout, 'in between')
        if g.chance(0.5):
            vandalize(res)
    c.input('in between', others)
    third, _, _ = perform(c, o, recipe, plain, 'plain arrays again')
    same(c, name, third, first, 1e-12, 'repeated after %s' % others)
    # other memory layouts, and arrays that cannot be written

    def readonly(x):
        y = np.array(x, order='C')
        y.flags.writeable = False
        return y
    fourth, _, _ = perform(c, o, recipe, readonly, 'read-only arrays')
    same(c, name, fourth, first, 1e-12, 'on read-only arrays')
    for _ in range(2):
        fifth, _, _ = perform(c, o, recipe, g.layout, 'other layouts')
        same(c, name, fifth, first, 1e-7, 'on another memory layout')


@workload(quick=8000)
def calls(c):
    history(c, OPS[c.index % len(OPS)])


@workload(quick=600)
def mixtures(c):
    """Longer interleavings: a set of calls is repeated in a shuffled order."""
    g = c.g
    chosen = [g.pick(OPS) for _ in range(g.integer(4, 12))]
    jobs = []
    for k, o in enumerate(chosen):
        recipe = o[1](g)
        c.input('%d %s' % (k, o[0]), recipe)
        jobs.append((o, recipe, perform(c, o, recipe, plain, 'first')))
    for i in g.rng.permutation(np.repeat(np.arange(len(jobs)), 2)):
        o, recipe, (first, result, _) = jobs[i]
        if g.chance(0.3):
            vandalize(result)
        got, res, _ = perform(c, o, recipe, plain, 'repeated')
        same(c, o[0], got, first, 1e-12, 'repeated in a mixture')
        if g.chance(0.5):
            vandalize(res)
    c.bucket('%d calls' % len(chosen))
