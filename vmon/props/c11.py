"""Polylines of 1..300 vertices (repeated vertices included), open and closed, subdivided by
lengths that divide the segments exactly, almost, or not at all (1..20000 pieces); segments in
1..6 dimensions sampled 2..20000 times, chains of 1..200 vertices filled. Oracle: the equally
spaced points in 80-bit arithmetic and the least admissible piece count (exact where the
lengths are exact). Non-trivial: at least one segment of non-zero length."""
import numpy as np
from blmath.geometry import Polyline
from blmath.geometry.segment import partition, partition_segment, partition_segment_old
from vmon import ref
from vmon.core import workload


def pieces(c, a, b, pts, s, what):
    """pts (first at a, b excluded) equally spaced from a towards b."""
    n = len(pts)
    t = np.arange(n, dtype=ref.LD)[:, None] / n
    c.close(pts, ref.ld(a) + t * (ref.ld(b) - ref.ld(a)), 3e-15 * s, what)


def check_subdivision(c, p, v, closed, max_length, exact):
    g = c.g
    with_indices = g.chance(0.7)
    idx = c.call(p.partition_by_length, max_length, ret_indices=True) if with_indices else c.call(p.partition_by_length, max_length)
    c.check(bool(p.closed) == closed, 'closed changed')
    w = p.v
    s = ref.maxabs(v) + 1e-300
    E = np.stack([np.arange(len(v)), (np.arange(len(v)) + 1) % len(v)], 1)
    if not closed:
        E = E[:-1]
    L = ref.norm(ref.ld(v[E[:, 1]]) - v[E[:, 0]])
    if not with_indices:
        c.check(idx is p, 'does not return itself for chaining')
        q = Polyline(v, closed=closed)
        idx = q.partition_by_length(max_length, ret_indices=True)
        c.equal(q.v, w, 'depends on ret_indices')
    idx = np.asarray(idx)
    c.check(idx.shape == (len(v),) and np.issubdtype(idx.dtype, np.integer), 'indices %r', idx[:10])
    c.check(idx[0] == 0 and np.all(np.diff(idx) >= 1) and idx[-1] < len(w), 'indices are not increasing: %r', idx[:10])
    c.equal(w[idx], v, 'the original vertices, at the reported indices')
    ends = list(idx[1:]) + ([len(w)] if closed else [])
    total = 0
    for k, (i, j) in enumerate(zip(idx, ends)):
        n = int(j - i)
        total += n
        pieces(c, v[E[k, 0]], v[E[k, 1]], w[i:j], s, 'points on segment %d' % k)
        r = L[k] / ref.LD(max_length)
        if exact:
            c.check(n == max(1, int(np.ceil(r))), 'segment %d of length %s is cut into %d by %s', k, float(L[k]), n, max_length)
        else:
            fuzz = 1e-13 * (1 + s / max(float(L[k]), 1e-300))
            c.check(r / n <= 1 + fuzz, 'segment %d: pieces of %g, longer than %g', k, float(L[k]) / n, max_length)
            c.check(n == 1 or r / (n - 1) > 1 - fuzz, 'segment %d: %d pieces where %d do', k, n, n - 1)
    if not closed:
        c.check(idx[-1] == len(w) - 1, 'vertices beyond the end')
        total += 1
    c.check(total == len(w), '%d vertices for %d pieces', len(w), total)
    c.equal(p.e[:, 0], np.arange(len(p.e)), 'edges')
    c.close(p.total_length, np.sum(L), 1e-13 * (s * (1 + len(w)) + float(np.sum(L))), 'total length')


def polyline(c, v, closed):
    c.input('v', v), c.input('closed', closed)
    return c.call(Polyline, np.array(v) if v.shape == (3, 3) or c.g.chance(0.7) else v.tolist(), closed=closed)


@workload(quick=5000)
def subdivide(c):
    g = c.g
    n = g.count(1, 15, 5000 if g.chance(0.2) else 300, 0.03)
    v = g.cloud(n) * g.unit()
    if n > 1 and g.chance(0.3):
        k = g.integer(1, n - 1)
        v[k] = v[k - 1]  # a repeated vertex
    closed = g.chance(0.5)
    p = polyline(c, v, closed)
    L = p.segment_lengths
    top = float(L.max()) if len(L) else 0.
    tot = float(L.sum()) if len(L) else 0.
    r = g.rng.random()
    if top == 0:
        m = 1.
        c.trivial = True
    elif r < 0.3:  # an exact or nearly exact part of some segment
        k = float(g.pick(L[L > 0]))
        m = k / g.integer(1, 30) * g.pick([1, 1, 1 + 2e-16, 1 - 2e-16, 1 + 1e-10, 1 - 1e-10])
    elif r < 0.4:
        m = top * g.pick([1., 1. + 1e-9, 1.5, 1e3, 1 - 1e-9])
    else:
        m = top / np.exp(g.rng.uniform(-0.5, 5 if g.chance(0.1) else 2.5))
    m = max(m, tot / 1500)
    if m == 0:
        m = 1.
    m = c.input('max_length', m)
    check_subdivision(c, p, v, closed, m, False)


@workload(quick=2500)
def subdivide_exact(c):
    """Axis-aligned and 3-4-5 segments with lengths that divide exactly."""
    g = c.g
    n = g.size(1, 12)
    step = np.array([[1, 0, 0], [0, 1, 0], [0, 0, 1], [3, 4, 0], [0, 4, 3], [2, 3, 6], [1, 4, 8], [0, 0, 0]])
    d = step[g.rng.integers(0, len(step), n)] * g.rng.integers(-12, 13, (n, 1))
    v = np.cumsum(np.vstack([[0, 0, 0], d]), axis=0).astype(float)
    s = 2. ** g.integer(*g.pick([(-4, 4), (-4, 4), (-30, 20)]))
    v = v * s
    m = g.pick([1, 2, 3, 4, 5, 6, 7, 10, 12, 18, 25, 36, 60, 1000, 0.5, 2.5, 1.25]) * s
    if g.chance(0.3) and m == int(m):
        m = int(m)
    c.input('max_length', m)
    p = polyline(c, v, False)
    c.bucket('exact')
    check_subdivision(c, p, v, False, m, True)


@workload(quick=40)
def subdivide_finely(c):
    g = c.g
    v = g.cloud(g.integer(2, 3), offset=False)
    v[1] += 1.
    v = v * g.unit()
    closed = g.chance(0.3)
    p = polyline(c, v, closed)
    m = c.input('max_length', float(p.segment_lengths.max()) / g.size(1000, 20000))
    check_subdivision(c, p, v, closed, m, False)


def ends(c):
    g = c.g
    d = g.pick([3, 3, 3, 2, 1, 4, 6])
    a, b = g.cloud(2, d=d)
    if g.chance(0.03):
        b = a.copy()
    k = g.unit()
    a, b = a * k, b * k
    if g.chance(0.25):
        a, b = np.round(a).astype(int), np.round(b).astype(int) + 7
    c.input('p1', a), c.input('p2', b)
    return g.layout(a), g.layout(b)


@workload(quick=4000)
def segments(c):
    g = c.g
    a, b = ends(c)
    n = c.input('n_samples', g.size(2, 20000 if g.chance(0.01) else 60))
    s = ref.maxabs(a, b)
    e = g.pick([True, False])
    got = c.call(partition_segment, a, b, n, endpoint=e) if not e or g.chance(0.5) else c.call(partition_segment, a, b, n)
    t = np.arange(n, dtype=ref.LD)[:, None] / (n - 1 if e else n)
    c.close(got, ref.ld(a) + t * (ref.ld(b) - ref.ld(a)), 3e-15 * s, 'samples, endpoint=%s' % e)
    c.equal(got[0], a, 'starts at the first end point')
    old = c.call(partition_segment_old, a, b, n) if n != 5 or g.chance(0.5) else c.call(partition_segment_old, a, b)
    t = np.arange(1, n, dtype=ref.LD)[:, None] / n
    c.close(old, ref.ld(a) + t * (ref.ld(b) - ref.ld(a)), 5e-15 * s, 'interior points')


@workload(quick=600)
def counts_refused(c):
    a, b = ends(c)
    bad = c.g.pick([2.0, 5., 2.5, '5', None, [3], (4,), np.float64(7.), 1e3, 3 + 0j])
    small = c.g.pick([1, 0, -1, -5, 1, -c.g.integer(1, 10**6)])
    c.input('bad', bad), c.input('small', small)
    for f in (partition_segment, partition_segment_old):
        c.raises(TypeError, f, a, b, bad)
        c.raises(ValueError, f, a, b, small)
    c.raises(TypeError, partition_segment, a, b, bad, endpoint=False)
    c.raises(ValueError, partition_segment, a, b, small, endpoint=False)


@workload(quick=2000)
def chains(c):
    g = c.g
    n = g.count(1, 12, 3000 if g.chance(0.1) else 200, 0.05)
    d = g.pick([3, 3, 2, 1, 5])
    v = g.cloud(n, d=d)
    if n > 1 and g.chance(0.15):  # repeated vertices
        i = g.integer(0, n - 2)
        v[i + 1:i + 1 + g.integer(1, 3)] = v[i]
        c.bucket('repeated vertices')
    k = g.size(1, 300 if n < 30 else 20)
    v = v * g.unit()
    c.input('v', v), c.input('partition_size', k)
    c.trivial = n == 1
    got = c.call(partition, g.layout(v), k) if k != 5 or g.chance(0.5) else c.call(partition, g.layout(v))
    t = np.arange(k, dtype=ref.LD) / k
    w = ref.ld(v)
    want = np.concatenate([(w[:-1, None] + t[None, :, None] * (w[1:] - w[:-1])[:, None]).reshape(-1, d), w[-1:]])
    c.close(got, want, 6e-15 * ref.maxabs(v), 'filled chain')
    c.equal(got[-1], v[-1], 'last vertex')
    c.equal(got[::k], v, 'the vertices of the chain')
