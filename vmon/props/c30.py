"""C30: several threads make calls at once, on arguments of their own or on shared ones nobody
changes. A scheduler hands the only permission to run from thread to thread at lines (or single
bytecode instructions) of blmath it picks, so the interleaving is a function of the case and a
replay repeats it; other cases run freely with the shortest switch interval. Each answer is
compared with that of the same call made alone, arguments and process-wide state with what they
were. Non-trivial: at least one switch inside the code of blmath. A thread that waits for
another (a lock) makes the scheduler step aside."""
import os
import random
import sys
import threading
import warnings

from vmon.core import workload, Violation, Skip, REPO
from vmon.props import c28

NEEDS_CHOLMOD = True
TOOL = 3
PREFIX = os.path.join(os.path.abspath(REPO), 'blmath') + os.sep
SCHED = [None]
ARMED = [0]
PATIENCE = [3.]
FILTERS = 4  # in world()


def setup():
    c28.setup()


def at_place(code, where):
    if not code.co_filename.startswith(PREFIX):
        return sys.monitoring.DISABLE
    s = SCHED[0]
    if s is not None:
        s.reached(code, where)


def arm(events):
    m = sys.monitoring
    if ARMED[0] == events:
        return
    if m.get_tool(TOOL) is None:
        m.use_tool_id(TOOL, 'vmon-schedule')
        for e in (m.events.LINE, m.events.INSTRUCTION):
            m.register_callback(TOOL, e, at_place)
    m.set_events(TOOL, events)
    ARMED[0] = events


class Scheduler(object):
    """One thread runs at a time; at the places reached it may pass the permission on."""

    def __init__(self, seed, n, p):
        self.random = random.Random(seed)
        self.sem = [threading.Semaphore(0) for _ in range(n)]
        self.alive = list(range(n))
        self.ids = {}
        self.p, self.free, self.switches, self.places = p, False, 0, 0
        self.trace = []

    def reached(self, code, where):
        k = self.ids.get(threading.get_ident())
        if k is None or self.free:
            return
        self.places += 1
        if len(self.alive) > 1 and self.random.random() < self.p:
            j = self.random.choice([i for i in self.alive if i != k])
            self.switches += 1
            self.trace.append((k, j, code.co_name, where))
            self.sem[j].release()
            self.wait(k)

    def wait(self, k):
        if not self.free and not self.sem[k].acquire(timeout=PATIENCE[0]):
            self.step_aside()

    def step_aside(self):
        self.free = True
        PATIENCE[0] = 0.05  # whoever waits here waits for a lock: likely it will again
        for s in self.sem:
            s.release()

    def begin(self, k):
        self.ids[threading.get_ident()] = k
        self.wait(k)

    def end(self, k):
        self.alive.remove(k)
        if self.alive:
            self.sem[self.random.choice(self.alive)].release()


class Unscheduled(object):
    def __init__(self, n):
        self.gate = threading.Barrier(n)
        self.free, self.switches, self.places, self.trace = True, 0, 0, []
        self.last, self.ids = None, {}

    def reached(self, code, where):
        k = threading.get_ident()
        if k in self.ids:
            self.places += 1
            if self.last != k:
                if self.last is not None and len(self.trace) < 1000:
                    self.trace.append((self.ids[k], code.co_name, where))
                    self.switches += 1
                self.last = k

    def begin(self, k):
        self.ids[threading.get_ident()] = k
        self.gate.wait(20)

    def end(self, k):
        pass


def outcome(fn, args):
    try:
        return ('returned', c28.frozen(fn(*args)))
    except Exception as e:
        return ('raised', type(e).__name__, str(e)[:200])


def jobs(c, n):
    """Per thread a list of (operation, recipe); recipes that are the same object are realized once."""
    g = c.g
    first = c28.OPS[c.index % len(c28.OPS)]
    kind = g.pick(['own', 'own', 'shared', 'shared', 'shared object', 'anything'])
    c.bucket(kind)
    recipe = first[1](g)
    out = [[(first, recipe)] for _ in range(n)]
    if kind == 'own':
        out = [[(first, first[1](g)) for _ in range(g.integer(1, 3))] for _ in range(n)]
    elif kind == 'shared':
        out = [[(first, recipe)] * g.integer(1, 2) for _ in range(n)]
    elif kind == 'anything':
        for k in range(1, n):
            out[k] = [(o, o[1](g)) for o in [g.pick(c28.OPS) for _ in range(g.integer(1, 3))]]
    elif recipe and isinstance(recipe[0], c28.Obj):
        for k in range(1, n):
            o = g.pick([q for q in c28.OPS if q[0].split('.')[0].split()[0] == first[0].split('.')[0].split()[0]])
            r = o[1](g)
            if r and isinstance(r[0], c28.Obj) and r[0].kind == recipe[0].kind:
                r = [recipe[0]] + list(r[1:])
            out[k] = [(o, r)]
    return out


def together(c, make):
    g = c.g
    n = g.pick([2, 2, 3, 4])
    work = jobs(c, n)
    for k, todo in enumerate(work):
        for o, r in todo:
            c.input('thread %d: %s' % (k, o[0]), r)
    alone = {}
    for todo in work:
        for o, r in todo:
            if (o[0], id(r)) not in alone:
                alone[o[0], id(r)] = outcome(o[2], c28.realize(r, c28.plain))
                if alone[o[0], id(r)][0] == 'raised':
                    raise Skip
    made, objects = {}, {}

    def once(r):
        if id(r) in made:
            return made[id(r)]
        a = []
        for x in r:
            if isinstance(x, c28.Obj):
                if id(x) not in objects:
                    objects[id(x)] = c28.realize(x, c28.plain)
                a.append(objects[id(x)])
            else:
                a.append(c28.realize(x, c28.plain))
        made[id(r)] = a
        return a
    todo = [[(o, r, once(r)) for o, r in q] for q in work]
    before = dict((id(r), [c28.state(a) for a in made[id(r)]]) for q in work for _, r in q)
    w = c28.world()
    s = make(n)
    got = [[] for _ in range(n)]

    def run(k):
        s.begin(k)
        try:
            for o, r, a in todo[k]:
                got[k].append(outcome(o[2], a))
        finally:
            s.end(k)
    threads = [threading.Thread(target=run, args=(k,), daemon=True) for k in range(n)]
    SCHED[0] = s
    try:
        for t in threads:
            t.start()
        if isinstance(s, Scheduler):
            s.sem[s.random.randrange(n)].release()
        for t in threads:
            t.join(30)
        if any(t.is_alive() for t in threads):
            if isinstance(s, Scheduler):
                s.step_aside()
            for t in threads:
                t.join(30)
    finally:
        SCHED[0] = None
    c.check(not any(t.is_alive() for t in threads), 'calls made by %d threads do not finish', n)
    c._h.update(repr(s.trace).encode())
    c.trivial = s.switches == 0
    c.bucket('%d threads' % n, 'no switch' if not s.switches else 'switches 1-9' if s.switches < 10 else 'switches 10-99' if s.switches < 100 else 'switches 100+')
    if s.free and isinstance(s, Scheduler):
        c.bucket('stepped aside')
    for name, count in (('switches in all', s.switches), ('places reached in all', s.places)):
        name = '%s/%s' % (c.wname, name)
        c.stats.buckets[name] = c.stats.buckets.get(name, 0) + count
    for k in range(n):
        for (o, r, a), y in zip(todo[k], got[k]):
            c.stats.calls[o[0]] = c.stats.calls.get(o[0], 0) + 1
            c28.same(c, o[0], y, alone[o[0], id(r)], 1e-12, 'in thread %d of %d, beside %s' % (k, n, sorted(set(q[0][0] for j, t in enumerate(todo) if j != k for q in t))))
    for q in todo:
        for o, r, a in q:
            c.check([c28.state(x) for x in a] == before[id(r)], '%s in several threads changed an argument', o[0])
    now = c28.world()
    if s.free:  # switches inside scikit-learn too, which itself swaps the warning filters
        now, w = list(now), list(w)
        now[FILTERS] = w[FILTERS]
        warnings.filters[:] = w[FILTERS]
        now, w = tuple(now), tuple(w)
    c.check(now == w, 'calls of several threads at once changed process-wide state')


@workload(quick=800)
def by_line(c):
    arm(sys.monitoring.events.LINE)
    p = c.g.pick([0.02, 0.1, 0.3, 1.])
    seed = int(c.rng.integers(0, 2 ** 31))
    together(c, lambda n: Scheduler(seed, n, p))


@workload(quick=500)
def by_instruction(c):
    arm(sys.monitoring.events.INSTRUCTION)
    p = c.g.pick([0.003, 0.02, 0.1, 0.5])
    seed = int(c.rng.integers(0, 2 ** 31))
    together(c, lambda n: Scheduler(seed, n, p))


@workload(quick=300)
def freely(c):
    arm(sys.monitoring.events.LINE)
    keep = sys.getswitchinterval()
    sys.setswitchinterval(c.g.pick([1e-6, 1e-5, 1e-4]))
    try:
        together(c, Unscheduled)
    finally:
        sys.setswitchinterval(keep)
