"""C31: objects with a history (planes, polylines, boxes, values, transforms, coordinate managers,
block matrices) are copied, deep-copied and pickled with every protocol, possibly several times
over. The copy must show the same state and give every computation the same answer;
then original or copy is changed or used in place, and the other must be as it was. Oracle: the
object that was not touched. Non-trivial: an object of blmath among the arguments."""
import copy
import pickle

import numpy as np

from vmon.core import workload, Violation, Skip
from vmon.props import c28

NEEDS_CHOLMOD = True


def setup():
    c28.setup()


def duplicate(c, x, how):
    try:
        if how == 'copy':
            return copy.copy(x)
        if how == 'deepcopy':
            return copy.deepcopy(x)
        return pickle.loads(pickle.dumps(x, int(how[-1])))
    except Exception as e:
        raise Violation('%s of a %s raised %s: %s' % (how, type(x).__name__, type(e).__name__, str(e)[:200]))


HOW = ['copy', 'deepcopy', 'deepcopy'] + ['pickle %d' % p for p in range(6)]
OWN = (c28.Plane, c28.Polyline, c28.Box, c28.Value, c28.CompositeTransform, c28.CoordinateManager, c28.sb.StaticBlockSparseMatrix)


def objects(recipe):
    return [i for i, x in enumerate(recipe) if isinstance(x, c28.Obj) and x.kind in ('plane', 'polyline', 'box', 'value', 'transform', 'manager', 'blocks')]


def with_objects():
    from vmon.gen import Gen
    out = []
    for o in c28.OPS:
        if any(objects(o[1](Gen(np.random.default_rng([7, k])))) for k in range(3)):
            out.append(o)
    return out


CHOSEN = []
PROBE = np.array([[1., 2., 3.], [-4., 0.5, 7.]])
REL = 1e-11  # copies may lie differently in memory, which may show in the last digits of products


def seen(x):
    if isinstance(x, c28.CompositeTransform):
        return ('products', c28.frozen([x.matrix_for(), x(PROBE), x(PROBE, reverse=True)]))
    if isinstance(x, c28.CoordinateManager):
        return ('products', c28.frozen([x.do_transform(PROBE, a, b) for a in ('start', 'after0') for b in ('start', 'after0')]))
    return ('state', c28.state(x))


def unequal(a, b):
    return a[0] != b[0] or (bool(c28.differ(a[1], b[1], REL)) if a[0] == 'products' else a != b)


def outcome(o, args):
    try:
        return ('returned', c28.frozen(o[2](*args)))
    except Exception as e:
        return ('raised', type(e).__name__, str(e)[:200])


def change(g, x):
    """Change the object through its own methods and attributes."""
    if isinstance(x, c28.Polyline):
        how = g.pick(['flip', 'v', 'closed', 'partition', 'in place'])
        if how == 'flip':
            x.flip()
        elif how == 'v':
            x.v = g.rng.normal(size=(g.integer(2, 6), 3))
        elif how == 'closed':
            x.closed = not x.closed
        elif how == 'partition':
            x.partition_by_length(x.total_length / 40 + 1e-300)
        elif how == 'in place' and x.v is not None and x.v.flags.writeable:
            x.v[:] = -1 - x.v
    elif isinstance(x, c28.CompositeTransform) or isinstance(x, c28.CoordinateManager):
        for _ in range(g.integer(1, 3)):
            k = g.integer(0, 2)
            if k == 0:
                x.scale(2.5)
            elif k == 1:
                x.translate(g.rng.normal(size=3))
            else:
                x.convert_units('m', 'cm')
        if isinstance(x, c28.CoordinateManager):
            x.tag_as(g.pick(['after0', 'start', 'new']))
            if g.chance(0.5):
                x.start = g.rng.normal(size=(2, 3))
    elif isinstance(x, c28.Value):
        if g.chance(0.7):
            x.value = x.value * 3 + 1
        else:
            x.units = 'cm' if x.units != 'cm' else 'ft'
    elif isinstance(x, c28.Plane):
        for a in (x.reference_point, x.normal):
            if a.flags.writeable:
                a[:] = a[::-1] + 1
    elif isinstance(x, c28.Box):
        for a in (x.origin, x.shape):
            if isinstance(a, np.ndarray) and a.flags.writeable:
                a[:] = a + 1
    else:
        return False
    return True


@workload(quick=2500)
def copies(c):
    g = c.g
    if not CHOSEN:
        CHOSEN.extend(with_objects())
    o = CHOSEN[c.index % len(CHOSEN)]
    recipe = c.input(o[0], o[1](g))
    mine = objects(recipe)
    if not mine:
        c.trivial = True
        return
    how = [g.pick(HOW) for _ in range(g.integer(1, 2))]
    c.input('how', how)
    i = g.pick(mine)
    c.bucket(recipe[i].kind, *how)
    args = c28.realize(recipe, c28.plain)
    want = outcome(o, args)
    if want[0] == 'raised':
        raise Skip
    if g.chance(0.3):  # not used yet when copied
        args = c28.realize(recipe, c28.plain)
    before = seen(args[i])
    x = args[i]
    for h in how:
        x = duplicate(c, x, h)
    c.check(type(x) is type(args[i]) and x is not args[i], '%s gives %r', how, type(x))
    c.check(not unequal(seen(args[i]), before), 'taking a %s changed a %s', how, recipe[i].kind)
    c.check(not unequal(seen(x), before), 'the %s of a %s is not equal to it', how, recipe[i].kind)
    twin = list(args)
    twin[i] = x
    c28.same(c, o[0], outcome(o, twin), want, REL, 'on a %s' % ' of a '.join(how))
    if set(how) == {'copy'}:
        return
    # independent: what happens to one is not seen in the other
    changed, kept, whose = (args, twin, 'original') if g.chance(0.5) else (twin, args, 'copy')
    if change(g, changed[i]):
        c.check(not unequal(seen(kept[i]), before), 'changing the %s of a %s (%s) changed the other', whose, recipe[i].kind, how)
        c28.same(c, o[0], outcome(o, kept), want, REL, 'after the %s was changed (%s)' % (whose, how))


def spacious(g):
    """Objects of any size and extremity, with something to ask them."""
    kind = g.pick(['polyline', 'polyline', 'transform', 'manager', 'value', 'box', 'plane', 'blocks'])
    P = lambda n: g.rng.normal(size=(n, 3)) * g.pick([1., 1e-9, 1e9])
    if kind == 'polyline':
        n = g.count(0, 40, 5000, 0.3)
        r = c28.Obj('polyline', P(n) if n or g.chance(0.5) else None, g.chance(0.5))
        return r, lambda p: [p.v, p.e, p.closed, p.segments, p.total_length, repr(p), len(p), p.to_dict()]
    if kind in ('transform', 'manager'):
        st = [t for _ in range(g.pick([1, 1, 3, 20])) for t in c28.steps(g)]
        x = P(g.count(1, 20, 3000, 0.2))
        if kind == 'transform':
            return c28.Obj('transform', st), lambda t: [t(x), t(x, reverse=True), t(x, from_range=(0, len(st) // 2)), len(t.transforms)]
        at = g.pick(['start'] + ['after%d' % k for k in range(len(st))])
        r = c28.Obj('manager', st, x, at) if g.chance(0.7) else c28.Obj('manager', st)
        return r, lambda m: [m.do_transform(x, at, t) for t in ('start', 'after0', 'after%d' % (len(st) - 1))] + ([m.start, getattr(m, at)] if m.points_tag else [])
    if kind == 'value':
        x = g.pick([0., -0., float('inf'), 5e-324, 1.7e308, g.number(1e-300, 1e300), float(g.integer(-9, 9))])
        return c28.Obj('value', x, g.pick(c28.unitdefs.NAMES + [None])), lambda v: [repr(v.value), v.units, str(v), v.for_json(), bool(v), -v]
    if kind == 'box':
        return c28.Obj('box', P(1)[0], np.abs(P(1)[0])), lambda b: [b.origin, b.shape, b.ranges, b.volume, b.center_point]
    if kind == 'plane':
        return c28.Obj('plane', P(1)[0], g.direction()), lambda p: [p.reference_point, p.normal, p.equation, repr(p), p.flipped()]
    n = g.count(2, 12, 80, 0.2)
    masks = {'row_sparsity': g.rng.random(n) < 0.5, 'column_sparsity': g.rng.random(n) < 0.5} if g.chance(0.5) else {}
    b = g.rng.normal(size=n)
    return c28.Obj('blocks', c28.spd(g, n), masks), lambda m: [m.row_sparsity, m.column_sparsity, m.shape, m.matvec(b)]


@workload(quick=800)
def large(c):
    """One object of any size, nothing but itself asked of it."""
    g = c.g
    recipe, ask = spacious(g)
    o = (recipe.kind, None, lambda x: ask(x), None)
    c.input('object', recipe.kind), c.input('parts', recipe.parts)
    how = [g.pick(HOW) for _ in range(g.integer(1, 2))]
    c.input('how', how)
    c.bucket(recipe.kind, *how)
    mine = c28.realize(recipe, c28.plain)
    fresh = outcome(o, [c28.realize(recipe, c28.plain)])
    if fresh[0] == 'raised':
        raise Violation('a %s cannot be asked about: %s' % (recipe.kind, fresh))
    x = mine
    for h in how:
        x = duplicate(c, x, h)
    c.check(type(x) is type(mine) and x is not mine, '%s gives %r', how, type(x))
    c28.same(c, recipe.kind, outcome(o, [x]), fresh, REL, 'that is a %s' % ' of a '.join(how))
    c28.same(c, recipe.kind, outcome(o, [mine]), fresh, REL, 'of which a %s was taken' % ' of a '.join(how))
    if set(how) != {'copy'}:
        changed, kept = (mine, x) if g.chance(0.5) else (x, mine)
        if isinstance(changed, c28.Polyline) and len(changed) < 2:
            changed.v = np.ones((4, 3))
        elif not change(g, changed):
            return
        c28.same(c, recipe.kind, outcome(o, [kept]), fresh, REL, 'after the other one was changed (%s)' % how)
