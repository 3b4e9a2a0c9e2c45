"""Histories of {step, tag, assign, read} on a CoordinateManager, with retagging, shared tags,
reads forward and backward through any pair of frames, plain arrays and vertex-carrying
objects, unknown frames and reads before assignment; oracle: model stack plus a name -> count map."""
import copy
import numpy as np
from blmath.geometry.transform import CoordinateManager
from vmon import ref, xf
from vmon.core import workload
from vmon.shim import load_chumpy

load_chumpy()
NAMES = ['source', 'floored', 'a', 'b', 'c', 'at_origin', 'x1', 'T', 'v']


class Shallow(object):
    """No copy method: copied shallowly."""
    def __init__(self, v, f, extra):
        self.v, self.f, self.extra = v, f, extra


class Guarded(object):
    """The vertices are a property."""
    def __init__(self, v, f, extra):
        self._v, self.f, self.extra = v, f, extra

    @property
    def v(self):
        return self._v

    @v.setter
    def v(self, x):
        self._v = x


class Slots(object):
    __slots__ = ['v', 'f', 'extra']

    def __init__(self, v, f, extra):
        self.v, self.f, self.extra = v, f, extra


class WithCopy(Shallow):
    copies = 0

    def copy(self):
        r = WithCopy(copy.copy(self.v), self.f, self.extra)
        r.copies = self.copies + 1
        return r


def read(c, cm, m, tags, assigned, p, obj):
    to = c.g.pick(sorted(tags))
    i, j = tags[assigned], tags[to]
    got = c.get(cm, to)
    src = np.array(p)
    if obj is not None:
        c.check(got is not obj, 'reading a frame returned the original object')
        c.check(type(got) is type(obj), 'type of the object read')
        c.check(got.f is obj.f and got.extra is obj.extra, 'something other than the vertices was replaced')
        if isinstance(obj, WithCopy):
            c.check(got.copies == obj.copies + 1, 'the object\'s own copy method was not used')
        pts = got.v
    else:
        pts = got
    start, stop, rev = (i, j, False) if i <= j else (j, i, True)
    want = m.apply(src, start, stop, rev)
    size = ref.norm(np.concatenate([ref.ld(src), np.ones((len(src), 1))], axis=1))
    b = m.bound(start, stop, rev)
    c.close(pts, want, (b * size)[:, None], 'read %s (after %d steps) of points assigned in %s (after %d)' % (to, j, assigned, i))
    if i == j:
        c.equal(pts, src, 'reading the same state returns the points')
        c.bucket('read same')
    else:
        c.bucket('read backward' if rev else 'read forward')
    return to, got, pts


@workload(quick=2600)
def histories(c):
    cm = c.call(CoordinateManager)
    m, tags = xf.Model(), {}
    assigned, p, obj, keep = None, None, None, None
    c.raises(Exception, getattr, cm, 'nothing')
    n = c.g.size(3, 40)
    names = NAMES[:c.g.integer(2, len(NAMES))]
    for _ in range(n):
        r = c.rng.random()
        if r < 0.28:
            xf.random_step(c, cm, m)
            c.bucket('step')
        elif r < 0.5 or not tags:
            name = c.g.pick(names)
            c.bucket('retag' if name in tags else 'tag')
            c.input('tag', name)
            c.call(cm.tag_as, name)
            tags[name] = len(m.steps)
        elif r < 0.62 or assigned is None:
            if assigned is None and c.g.chance(0.3):
                c.raises(ValueError, getattr, cm, c.g.pick(sorted(tags)))
            assigned = c.input('assign', c.g.pick(sorted(tags)))
            p = xf.points(c, 12)
            obj = None
            if c.g.chance(0.4):
                obj = c.g.pick([WithCopy, WithCopy, Shallow, Guarded, Slots])(p, np.array([[0, 1, 2]]), ['x'])
            keep = np.array(p)
            c.call(setattr, cm, assigned, p if obj is None else obj)
        elif r < 0.93:
            to, got, pts = read(c, cm, m, tags, assigned, p, obj)
            c.equal(p if obj is None else obj.v, keep, 'the assigned points were changed')
            if obj is not None:
                c.check(obj.v is p, 'the assigned object was changed')
            if c.g.chance(0.3):  # write back what was read: the route must not matter
                c.bucket('route')
                assigned, p, obj = to, pts, (got if obj is not None else None)
                keep = np.array(p)
                c.call(setattr, cm, assigned, p if obj is None else obj)
        elif r < 0.97:
            bad = c.g.pick(['nope', 'sources', 'B', '_x', 'unknown_tag'])
            if assigned is not None:
                c.raises((KeyError, AttributeError), getattr, cm, bad)
            c.raises(AttributeError, setattr, cm, bad, np.zeros((1, 3)))
            c.raises(KeyError, cm.do_transform, np.zeros((1, 3)), bad, c.g.pick(sorted(tags)))
            c.raises(KeyError, cm.do_transform, np.zeros((1, 3)), c.g.pick(sorted(tags)), bad)
            c.bucket('refused name')
        else:
            xf.bad_step(c, cm)
            c.bucket('refused step')
    if assigned is not None:
        for _ in range(2):
            read(c, cm, m, tags, assigned, p, obj)


@workload(quick=900)
def between_tags(c):
    """do_transform between any two tags; later steps and tags never change it."""
    cm, m, tags = c.call(CoordinateManager), xf.Model(), {}
    many = c.g.chance(0.15)
    for name in ['t%d' % k for k in range(c.g.integer(6, 25))] if many else NAMES[:c.g.integer(2, 6)]:
        for _ in range(1 if many else c.g.pick([0, 1, 1, 2, 3])):
            xf.random_step(c, cm, m)
        c.call(cm.tag_as, name)
        tags[name] = len(m.steps)
    a, b, d = (c.g.pick(sorted(tags)) for _ in range(3))
    if many and c.g.chance(0.6):  # neighbours
        k = c.g.integer(1, len(tags) - 1)
        a, b = ('t%d' % k, 't%d' % (k - 1))[::c.g.pick([1, -1])]
    c.input('route', (a, b, d))
    p = xf.points(c, 15)
    one = c.call(cm.do_transform, p, a, b)
    i, j = tags[a], tags[b]
    s, e, rev = (i, j, False) if i <= j else (j, i, True)
    size = ref.norm(np.concatenate([ref.ld(p), np.ones((len(p), 1))], axis=1))
    c.close(one, m.apply(p, s, e, rev), (m.bound(s, e, rev) * size)[:, None], 'conversion %s -> %s' % (a, b))
    # via d
    via = c.call(cm.do_transform, c.call(cm.do_transform, p, a, d), d, b)
    k = tags[d]
    pd = m.apply(p, min(i, k), max(i, k), k < i)
    bb = m.bound(min(i, k), max(i, k), k < i) * size
    amp = float(np.linalg.norm(np.asarray(m.matrix(min(k, j), max(k, j), j < k), dtype=float)))
    tol = bb * amp + m.bound(min(k, j), max(k, j), j < k) * (ref.norm(pd) + 1 if len(p) else np.zeros(0)) + m.bound(s, e, rev) * size
    # undoing and redoing also costs the accuracy of the inverse
    c.close(via, m.apply(p, s, e, rev), (8 * tol)[:, None], 'route %s -> %s -> %s' % (a, d, b))
    for _ in range(c.g.integer(1, 3)):
        xf.random_step(c, cm, m)
        if c.g.chance(0.5):
            c.call(cm.tag_as, 'later')
    c.equal(c.call(cm.do_transform, p, a, b), one, 'conversion between existing tags after later steps')
    empty = Shallow(None, None, [])
    r = c.call(cm.do_transform, empty, a, b)
    c.check(r.v is None, 'an object without vertices stays so')
