"""Reference model of a transform stack, shared by C03 and C04."""
import numpy as np

from vmon import ref

LENGTHS = {  # SI / legal definitions, in metres
    'm': '1', 'meter': '1', 'meters': '1', 'mm': '0.001', 'millimeter': '0.001', 'millimeters': '0.001',
    'cm': '0.01', 'centimeter': '0.01', 'centimeters': '0.01', 'in': '0.0254', 'inch': '0.0254', 'inches': '0.0254',
    'ft': '0.3048', 'foot': '0.3048', 'feet': '0.3048', 'fathoms': '1.8288', 'cubits': '0.4572',
}


def hom(A, t=None):
    m = np.eye(4, dtype=ref.LD)
    m[:3, :3] = A
    if t is not None:
        m[:3, 3] = t
    return m


def ld_inverse(m):
    """Newton-polished inverse in extended precision."""
    m = ref.ld(m)
    x = ref.ld(np.linalg.inv(np.asarray(m, dtype=float)))
    for _ in range(3):
        x = ref.matmul(x, 2 * np.eye(len(m), dtype=ref.LD) - ref.matmul(m, x))
    return x


def well_conditioned(g, scale=True):
    s = np.exp(g.rng.uniform(-0.7, 0.7, 3)) * (g.rng.choice([-1., 1.], 3) if g.chance(0.3) else 1.)
    return g.rotation().dot(np.diag(s)).dot(g.rotation())


NAMES = {'scale': ['factor'], 'convert_units': ['from_units', 'to_units'], 'translate': ['vector'], 'reorient': ['up', 'look'],
         'rotate': ['rot'], 'append_transform3': ['forward', 'reverse'], 'append_transform4': ['forward', 'reverse']}


class Model(object):
    """steps[i] = (forward, reverse) as the exact-ish 4x4 matrices the step stands for."""

    def __init__(self, approximate=False):
        self.approximate = approximate
        self.steps = []
        self.inexact = set()  # steps whose given reverse is not the inverse
        self.turned = []
        self.given = []  # (kind, array object, matrix) of earlier appends

    def matrix(self, start, stop, reverse):
        m = np.eye(4, dtype=ref.LD)
        rng = self.steps[start:stop]
        for f, r in (reversed(rng) if reverse else rng):
            m = ref.matmul(r if reverse else f, m)
        return m

    def apply(self, points, start, stop, reverse):
        """One step after the other, straight on the points."""
        p = ref.ld(points)
        rng = self.steps[start:stop]
        for f, r in (reversed(rng) if reverse else rng):
            m = r if reverse else f
            p = (m[None, :3, 0] * p[:, :1] + m[None, :3, 1] * p[:, 1:2] + m[None, :3, 2] * p[:, 2:]) + m[None, :3, 3]
        return p

    def bound(self, start, stop, reverse):
        """Rounding error of any association of the product, per unit of homogeneous point norm."""
        rng = self.steps[start:stop]
        mats = [np.asarray(r if reverse else f, dtype=float) for f, r in (reversed(rng) if reverse else rng)]
        n = len(mats)
        if n == 0:
            return 1e-15
        pre = [np.eye(4)]
        for m in mats:
            pre.append(m.dot(pre[-1]))
        suf = [np.eye(4)]
        for m in reversed(mats):
            suf.append(suf[-1].dot(m))
        suf = suf[::-1]  # suf[k]: steps k..n-1
        npre = [np.linalg.norm(m) for m in pre]
        nsuf = [np.linalg.norm(m) for m in suf]
        worst = max(a * b for a, b in zip(npre, nsuf))
        if n <= 8:
            for i in range(n):
                mid = np.eye(4)
                for j in range(i, n):
                    mid = mats[j].dot(mid)
                    worst = max(worst, nsuf[j + 1] * np.linalg.norm(mid) * npre[i])
        else:  # coarser, still an upper bound on what the fold produces
            worst *= max(npre) ** 0.5 + 1
        return 2e-14 * (n + 2) * worst


def random_step(c, xf, model, shim=True, allow=None):
    """Append one random step to the library object and to the model. Returns (kind, returned)."""
    from blmath.geometry.transform.composite import CompositeTransform  # noqa: F401
    g = c.g
    kinds = allow or ['scale', 'convert_units', 'translate', 'reorient', 'rotate_v', 'rotate_m', 't3', 't3i', 't4', 't4i']
    kind = g.pick(kinds)
    I = np.eye(3)
    if kind == 'scale':
        f = g.pick([2, 3, 0.5, 1, 0.01, 10., 1.0, float(np.exp(g.rng.uniform(-2, 2)))])
        if g.chance(0.1):
            f = 1 + g.pick([1, -1]) * 10. ** g.rng.uniform(-12, -2)
        arg = f
        if g.chance(0.15):  # whole numbers of any type
            f, t = g.pick([(2, 'i1'), (100, 'i1'), (200, 'u1'), (16, 'u1'), (300, 'i2'), (1000, 'u2'), (10 ** 6, 'i4'), (10 ** 5, 'i8'), (3, 'u8')])
            arg = np.dtype(t).type(f)
        elif g.chance(0.15):  # less precise types
            arg = np.dtype(g.pick(['f2', 'f4', 'f4'])).type(f if f > 1e-3 else 0.3)
            f = float(arg)
            c.bucket('scale %s' % arg.dtype)
        c.input('scale', arg)
        F, R, args, m = hom(I * ref.LD(f)), hom(I / ref.LD(f)), (arg,), 'scale'
    elif kind == 'convert_units':
        a, b = g.pick(sorted(LENGTHS)), g.pick(sorted(LENGTHS))
        f = ref.LD(LENGTHS[a]) / ref.LD(LENGTHS[b])
        c.input('convert_units', (a, b))
        F, R, args, m = hom(I * f), hom(I / f), (a, b), 'convert_units'
    elif kind == 'translate':
        t = c.rng.integers(-5, 6, 3).astype(float) if g.chance(0.3) else g.vector(1e-2, 20) if g.chance(0.8) else g.vector(1e-12, 1e-2)
        c.input('translate', t)
        arg = g.pick([t, t.tolist(), tuple(t.tolist())])
        if np.all(t == np.round(t)) and g.chance(0.7):
            if g.chance(0.1):
                t = t * 2. ** 33
            form = g.pick(['list', 'array', 'array', 'unsigned'])
            if form == 'unsigned':
                t = np.abs(t)
                arg = t.astype(g.pick(['u1', 'u2', 'u4', 'u8']) if t.max() < 100 else 'u8')
            elif form == 'array':
                arg = t.astype(g.pick(['i1', 'i2', 'i4', 'i8', 'f4']) if np.abs(t).max() < 100 else 'i8')
            else:
                arg = [int(x) for x in t]
            c.input('as', arg)
        F, R, args, m = hom(I, t), hom(I, -t), (arg,), 'translate'
    elif kind == 'reorient':
        up = g.vector(1e-2, 1e2)
        look = g.vector(1e-2, 1e2)
        while np.linalg.norm(np.cross(up, look)) < 0.05 * np.linalg.norm(up) * np.linalg.norm(look):
            look = c.rng.normal(size=3)
        if model.turned and g.chance(0.25):  # once more, or all but the same
            up, look = [np.array(z) for z in g.pick(model.turned)]
            e = g.pick([0., 1e-3, 1e-5, 1e-6, 1e-8])
            up, look = up + e * np.linalg.norm(up) * g.rng.normal(size=3), look + e * np.linalg.norm(look) * g.rng.normal(size=3)
        model.turned.append((up, look))
        c.input('up', up), c.input('look', look)
        y = ref.unit(up)
        z = ref.ld(look) - np.sum(ref.ld(look) * y) * y
        z = ref.unit(z)
        A = np.array([ref.cross(y, z), y, z])
        F, R, args, m = hom(A), hom(A.T), (g.pick([up, up.tolist()]), g.pick([look, look.tolist()])), 'reorient'
    elif kind == 'rotate_v':
        v = g.direction() * g.pick([0., 1e-3, 0.5, 1., np.pi / 2, np.pi, 3., g.rng.uniform(0, np.pi), 4., 7.])
        c.input('rotate', v)
        th = ref.norm(v)
        if th == 0:
            A = I
        else:
            k = ref.ld(v) / th
            K = np.array([[0, -k[2], k[1]], [k[2], 0, -k[0]], [-k[1], k[0], 0]], dtype=ref.LD)
            A = I + np.sin(th) * K + (1 - np.cos(th)) * ref.matmul(K, K)
        arg = g.pick([v, v.reshape(3, 1), v.reshape(1, 3), v.tolist()])
        F, R, args, m = hom(A), hom(np.asarray(A).T), (arg,), 'rotate'
    elif kind == 'rotate_m':
        # not within 1e-5 .. 1e-1 of 180 degrees, where the vector form loses some digits (C05 covers those)
        A = g.axis_angle(g.direction(), g.pick([0.1, np.pi / 2, 1., 3., g.rng.uniform(0, 3.), 10. ** g.rng.uniform(-12, -1), 0., np.pi, np.pi - 10. ** g.rng.uniform(-12, -6)]))
        c.input('rotate', A)
        F, R, args, m = hom(A), hom(A.T), (g.pick([A, A.tolist()]),), 'rotate'
    else:
        A = well_conditioned(g)
        if g.chance(0.2):  # all but a rotation, or all but nothing
            A = (g.rotation() if g.chance(0.5) else np.eye(3)).dot(np.eye(3) + g.pick([1e-3, 1e-5, 1e-7, 1e-9, 1e-12]) * g.rng.normal(size=(3, 3)))
        elif g.chance(0.2):
            A = np.array(g.pick([[[1, 1, 0], [0, 1, 0], [0, 0, 1]], [[0, 2, 0], [1, 0, 0], [0, 0, 4]]]), dtype=float)
        t = g.vector(1e-2, 10) if kind in ('t4', 't4i') else None
        M = hom(A, t)
        Inv = ld_inverse(M)
        k = 4 if kind in ('t4', 't4i') else 3
        f64 = np.asarray(M[:k, :k], dtype=float)
        c.input('append', f64)
        if g.chance(0.2) and np.all(f64 == np.round(f64)):
            f64 = f64.astype(g.pick([int, 'i1', 'i2', 'i4'] if np.abs(f64).max() < 100 else [int]))
        elif g.chance(0.1):
            f64 = f64.astype('f4')
            M = hom(f64[:3, :3].astype(float), f64[:3, 3].astype(float) if k == 4 else None)
            Inv = ld_inverse(M)
            c.bucket('float32 matrix')
        arg = g.layout(f64)
        earlier = [q for q in model.given if q[0] == k]
        if earlier and g.chance(0.3):  # the same object again
            _, arg, M = g.pick(earlier)
            Inv = ld_inverse(M)
            c.bucket('the same matrix again')
        else:
            model.given.append((k, arg, M))
        if kind.endswith('i') and model.approximate and g.chance(0.25):  # undone by whatever the caller says undoes it
            Inv = ref.ld(np.array(Inv, dtype=float))
            Inv[:3, :k] += g.rng.normal(size=(3, k)) * g.pick([1e-6, 1e-2, 0.3])
            model.inexact.add(len(model.steps))
            c.bucket('an approximate reverse')
        i64 = np.asarray(Inv[:k, :k], dtype=float)
        args = (arg,) + ((g.layout(i64),) if kind.endswith('i') else ())
        F, R, m = M, Inv, 'append_transform%d' % k
    c.bucket('step ' + kind)
    kw = {}
    if g.chance(0.3):  # by name
        k = g.integer(0, len(args) - 1)
        kw = dict(list(zip(NAMES[m], args))[k:])
        args = args[:k]
        c.bucket('by name')
    r = c.call(getattr(xf, m), *args, **kw)
    model.steps.append((F, R))
    return kind, r


def bad_step(c, xf):
    """A step that must be refused."""
    g = c.g
    k = g.integer(0, 3)
    if k == 0:
        c.raises(ValueError, xf.scale, c.input('bad scale', g.pick([0, 0., -0., -1, -2.5, -1e-9, -g.scale()])))
    elif k == 1:
        a, b = g.pick([('cm', 'kg'), ('kg', 'cm'), ('kg', 'kg'), ('kg', 'g'), ('deg', 'rad'), ('sec', 'm'), ('min', 'hr'), ('lb', 'lb')])
        c.raises(ValueError, xf.convert_units, a, b)
    elif k == 2:
        v = g.vector()
        up, look = g.pick([(np.zeros(3), v), (v, np.zeros(3)), ([0, 1, 0], [0, 2, 0]), ([0, 0, -3], [0, 0, 1])])
        c.raises(ValueError, xf.reorient, up, look)
    else:
        c.raises(Exception, xf.append_transform3, c.rng.normal(size=g.pick([(4, 4), (2, 2), (3, 4)])))


def points(c, hi=40):
    n = c.g.count(0, hi, 20000, 0.005)
    p = c.g.cloud(n, lo=1e-1, hi=1e2)
    if n < 3 and c.g.chance(0.15):  # the origin, perhaps alone
        p = np.zeros((n, 3)) * c.g.pick([1., -1.])
    if c.g.chance(0.1):
        p = np.round(p).astype(int)
    return c.input('points', c.g.layout(p))
