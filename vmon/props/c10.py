"""Histories of 1..60 operations (set v from arrays / lists / in place, set closed, flip,
subdivide, copy, reindex, cut, read, refused sets) over a growing pool of polylines of
0..400 vertices. Oracle: a model (vertex array, closed flag) per polyline, compared with every
live polyline after every step. Non-trivial: at least two mutating steps."""
import sys
import types

import numpy as np
from blmath.geometry import Plane, Polyline
from vmon import ref
from vmon.core import workload, Violation


try:
    import lace.lines
    lines = None
except ImportError:  # the drawing package is not here: something to hand the lines to
    lines = types.ModuleType('lace.lines')

    class Lines(object):
        def __init__(self, v=None, e=None, vc=None):
            self.v, self.e, self.vc = v, e, vc
    lines.Lines = Lines
    sys.modules.setdefault('lace', types.ModuleType('lace'))
    sys.modules['lace.lines'] = lines


class Model(object):
    def __init__(self, p, v, closed):
        self.p, self.v, self.closed = p, v, closed


def edges(v, closed):
    n = len(v)
    e = np.stack([np.arange(n), np.arange(n) + 1], 1)
    if closed and len(v):
        e[-1, 1] = 0
    if closed:
        return e
    return e[:-1]


READS = ['v', 'e', 'closed', 'segments', 'segment_vectors', 'segment_lengths', 'total_length', 'len', 'to_dict', 'readonly', 'repr', 'lines']


def check(c, m, what):
    p, v = m.p, m.v
    order = c.rng.permutation(len(READS))
    if v is None:
        c.check(p.v is None, '%s: v is not None', what)
        e = c.get(p, 'e')
        c.check(e is None or len(e) == 0, '%s: an empty polyline has edges %s', what, e)
        c.check(len(c.get(p, 'segment_lengths')) == 0, '%s: an empty polyline has segment lengths', what)
        c.close(c.get(p, 'total_length'), 0., 0., what + ': length of an empty polyline')
        c.check(bool(p.closed) == m.closed, '%s: closed', what)
        c.check('no vert' in c.call(repr, p), '%s: an empty polyline shows as %s', what, repr(p))
        c.check(c.call(len, p) == 0, '%s: len of an empty polyline is %d', what, len(p))
        c.check(np.size(c.get(p, 'segments')) == 0 and np.size(c.get(p, 'segment_vectors')) == 0, '%s: an empty polyline has segments', what)
        t = c.call(p.to_dict)
        c.check(set(t) == {'vertices', 'edges'} and len(t['vertices']) == 0 and np.size(t['edges']) == 0, '%s: an empty polyline is serialized as %s', what, t)
        return
    E = edges(v, m.closed)
    d = ref.ld(v[E[:, 1]]) - v[E[:, 0]]
    L = np.sqrt(np.sum(d * d, axis=1))
    s = ref.maxabs(v) + 1e-300
    for k in order:
        r = READS[k]
        if r == 'v':
            c.equal(p.v, v, what + ': v')
            c.check(p.v.dtype == np.float64, '%s: v has type %s', what, p.v.dtype)
        elif r == 'e':
            c.equal(c.get(p, 'e'), E, what + ': e')
        elif r == 'closed':
            c.check(bool(p.closed) == m.closed, '%s: closed is %r', what, p.closed)
        elif r == 'segments':
            c.equal(c.get(p, 'segments'), v[E], what + ': segments')
        elif r == 'segment_vectors':
            c.close(c.get(p, 'segment_vectors'), d, 3e-16 * s, what + ': segment vectors')
        elif r == 'segment_lengths':
            c.close(c.get(p, 'segment_lengths'), L, 1e-15 * s + 1e-15 * L, what + ': segment lengths')
        elif r == 'total_length':
            c.close(c.get(p, 'total_length'), np.sum(L), 3e-16 * (4 + len(L)) * np.sum(L) + 1e-15 * s * max(1, len(L)), what + ': total length')
        elif r == 'len':
            c.check(c.call(len, p) == len(v), '%s: len is %d', what, len(p))
        elif r == 'to_dict':
            k = c.g.pick([3, 3, 0, 1, 6])
            t = c.call(p.to_dict) if k == 3 else c.call(p.to_dict, decimals=k)
            c.check(set(t) == {'vertices', 'edges'}, '%s: keys %s', what, sorted(t))
            c.equal(np.asarray(t['vertices'], dtype=float).reshape(-1, 3), np.around(v, k), what + ': serialized vertices')
            c.equal(np.asarray(t['edges']).reshape(-1, 2), E, what + ': serialized edges')
        elif r == 'repr':
            t = c.call(repr, p)
            c.check(not len(v) or ('closed' in t) == m.closed and ('open' in t) != m.closed and ' %d ' % len(v) in t, '%s: shows as %s', what, t)
        elif r == 'lines' and lines is not None:
            t = c.call(p.as_lines, vc='red')
            c.equal(t.v, v, what + ': vertices of the lines'), c.equal(t.e, E, what + ': edges of the lines')
            c.check(t.vc == 'red', '%s: colour of the lines', what)
        elif r == 'readonly' and len(E):
            e = p.e
            try:
                e[0, 0] = e[0, 0] + 1
            except ValueError:
                continue
            except Exception as x:
                raise Violation('%s: writing an edge raised %r' % (what, x))
            raise Violation(what + ': an edge can be overwritten')


def verts(c, n=None):
    g = c.g
    n = g.count(1, 14, 100000 if g.chance(0.15) else 400, 0.02) if n is None else n
    return g.cloud(n) * g.unit()


def given(c, v):
    """v in some accepted form, owned by nobody else."""
    k = c.g.integer(0, 4)
    if k == 0 and v.shape != (3, 3) and len(v):
        return v.tolist()
    if k == 1 and np.all(v == np.round(v)):
        return v.astype(int)
    return np.array(c.g.layout(v))


@workload(quick=3500)
def histories(c):
    g = c.g
    pool = []
    log = []

    def new(v, closed):
        p = c.call(Polyline, None if v is None else given(c, v), closed=closed) if closed or g.chance(0.5) else \
            c.call(Polyline, None if v is None else given(c, v))
        pool.append(Model(p, None if v is None else np.array(v), closed))
        log.append(('new', v, closed))
    v = verts(c)
    new(None if g.chance(0.05) else v, g.chance(0.5))
    nsteps = g.size(1, (60 if g.chance(0.1) else 14) if len(v) < 1000 else 4)
    mutations = 0
    for step in range(nsteps):
        m = g.pick(pool)
        op = g.pick(['set', 'set', 'set same', 'element', 'scale', 'close', 'close', 'toggle', 'flip', 'subdivide', 'copy',
                     'copy', 'reindex', 'reindex', 'cut', 'none', 'refused', 'cross', 'empty', 'new'])
        what = 'step %d: %s' % (step, op)
        log.append((op, pool.index(m)))
        if op == 'set':
            v = verts(c)
            m.p.v = given(c, v)
            m.v = v
            log.append(v)
        elif op == 'set same' and m.v is not None:
            v = verts(c, len(m.v))
            m.p.v = given(c, v)
            m.v = v
            log.append(v)
        elif op == 'element' and m.v is not None and len(m.v):
            i, j, x = g.integer(0, len(m.v) - 1), g.integer(0, 2), g.number()
            m.p.v[i, j] = x
            m.v = np.array(m.v)
            m.v[i, j] = x
            log.append((i, j, x))
        elif op == 'scale' and m.v is not None:
            x = g.pick([2., -1., 0.5])
            m.p.v *= x
            m.v = m.v * x
            log.append(x)
        elif op in ('close', 'toggle'):
            x = (not m.closed) if op == 'toggle' else g.chance(0.5)
            m.p.closed = g.pick([x, x, np.bool_(x)])
            m.closed = x
            log.append(x)
        elif op == 'flip':
            c.call(m.p.flip)
            m.v = None if m.v is None else m.v[::-1].copy()
        elif op == 'subdivide' and m.v is not None and len(m.v) < 100:
            L = float(np.max(m.p.segment_lengths)) if len(m.p.segment_lengths) else 1.
            x = L / g.pick([1, 1.5, 2, 3.3]) or 1.
            n0, old = len(m.v), m.v
            r = c.call(m.p.partition_by_length, x, ret_indices=True)
            c.check(np.array_equal(m.p.v[r], old), '%s: the original vertices moved', what)
            m.v = np.array(m.p.v)
            log.append(x)
        elif op == 'copy':
            pool.append(Model(c.call(m.p.copy), None if m.v is None else m.v.copy(), m.closed))
        elif op == 'reindex' and m.v is not None and len(m.v):
            i = g.integer(0, len(m.v) - 1)
            log.append(i)
            if not m.closed:
                c.raises(ValueError, m.p.reindexed, i)
            else:
                want = np.vstack([m.v[i:], m.v[:i]])
                if g.chance(0.5):
                    q = c.call(m.p.reindexed, i)
                else:
                    q, emap = c.call(m.p.reindexed, i, ret_edge_mapping=True)
                    c.equal(np.asarray(m.p.segments)[emap], q.segments, what + ': segments through the edge mapping')
                    c.check(sorted(np.asarray(emap).tolist()) == list(range(len(m.v))), '%s: edge mapping %s', what, emap)
                pool.append(Model(q, want, True))
        elif op == 'cut' and m.v is not None and len(m.v):
            n = g.direction()
            plane = Plane(m.v.mean(axis=0) + 1e-3 * g.rng.normal(size=3), n)
            try:
                m.p.cut_by_plane(plane)
            except ValueError:
                pass
            except Exception:  # vertices on the plane: not this property
                pass
        elif op == 'none':
            if g.chance(0.5):
                m.p.v = None
            else:
                del m.p.v
            m.v = None
        elif op == 'refused':
            bad = g.pick([np.zeros(4), [[1., 2.], [3., 4.]], 'abc', np.full((2, 3), np.nan), [[1, 2, 3], [4, 5]], np.zeros((2, 2, 3)), 7])
            try:
                m.p.v = bad
            except Exception:
                pass
            else:
                raise Violation('%s: v accepted %r' % (what, bad))
        elif op == 'cross' and m.v is not None:  # give one polyline the vertices of another
            o = g.pick(pool)
            if o is not m and m.v is not None:
                o.p.v = m.p.v.copy()
                o.v = m.v.copy()
        elif op == 'empty' and g.chance(0.3):
            m.p.v = np.zeros((0, 3))
            m.v = np.zeros((0, 3))
        elif op == 'subdivide' and m.v is None:
            r = c.call(m.p.partition_by_length, 1., ret_indices=True)
            c.check(len(m.p) == 0 and np.size(r) == 0, '%s: an empty polyline became %r', what, m.p)
            m.p.v = None
        elif op == 'cut' and (m.v is None or not len(m.v)):
            plane = Plane(g.rng.normal(size=3), g.direction())
            c.raises(ValueError, m.p.cut_by_plane, plane)
            pts, es = c.call(m.p.intersect_plane, plane, ret_edge_indices=True)
            c.check(np.shape(pts) == (0, 3) and np.shape(es) == (0,), '%s: an empty polyline crosses a plane: %s', what, pts)
            c.check(np.shape(c.call(plane.polyline_xsection, m.p)) == (0, 3), '%s: an empty polyline crosses a plane', what)
        elif op == 'new':
            new(verts(c), g.chance(0.5))
        else:
            continue
        mutations += op not in ('cut', 'refused')
        c.bucket(op)
        for i, q in enumerate(pool):
            if q is m or i >= len(pool) - 2 or g.chance(0.5):
                check(c, q, what)
        if len(pool) > 6:
            pool.pop(g.integer(0, len(pool) - 1))
    for q in pool:
        check(c, q, 'at the end')
    c.input('history', log)
    c.trivial = mutations < 2


@workload(quick=1200)
def independence(c):
    """A change on either side of copy / reindexed is never seen by the other."""
    g = c.g
    v = c.input('v', verts(c))
    closed = c.input('closed', g.chance(0.7))
    p = c.call(Polyline, np.array(v), closed=closed)
    if closed and g.chance(0.5):
        i = g.integer(0, len(v) - 1) if g.chance(0.6) else 0
        q = c.call(p.reindexed, i)
        w = np.vstack([v[i:], v[:i]])
    else:
        q, w = c.call(p.copy), v.copy()
    a, b = Model(p, v.copy(), closed), Model(q, w, closed)
    for k in range(g.integer(1, 4)):
        m, o = (a, b) if g.chance(0.5) else (b, a)
        op = g.pick(['element', 'all', 'inplace', 'close', 'flip', 'v', 'subdivide'])
        c.input('op%d' % k, [op, m is a])
        c.bucket(op)
        m.v = np.array(m.v)
        if op == 'element':
            i = g.integer(0, len(m.v) - 1)
            m.p.v[i] = 77.
            m.v[i] = 77.
        elif op == 'all':
            m.p.v[...] = k
            m.v[...] = k
        elif op == 'inplace':
            m.p.v += 1.
            m.v += 1.
        elif op == 'close':
            m.p.closed = m.closed = not m.closed
        elif op == 'flip':
            m.p.flip()
            m.v = m.v[::-1].copy()
        elif op == 'v':
            m.p.v = [[1., 2., 3.], [4., 5., 6.], [0., 0., 1.], [1., 1., 1.]]
            m.v = np.array(m.p.v)
        else:
            m.p.partition_by_length(g.pick([1., 0.5, 100.]) * (0.01 + ref.maxabs(m.v)))
            m.v = np.array(m.p.v)
        check(c, o, 'after %s on the other' % op)
        check(c, m, 'after %s' % op)
