"""C32: every public computation is called hundreds of times on fresh arguments (or on one
long-lived object with fresh other arguments) while the interpreter's count of allocated memory
blocks is watched, after garbage collection and with arguments and results dropped. Alarm: the
count grows by half a block per call or more in every one of five successive stretches, and still
does after thousands of further calls, so memories of bounded size are accepted. Non-trivial: all."""
import gc
import sys
import time

from vmon.core import workload
from vmon.props import c28

NEEDS_CHOLMOD = True
STRETCH = 60
MORE = 5000
READY = []


def setup():
    c28.setup()


def growth(c, o, fixed, n):
    """Blocks allocated by n calls and not released."""
    g = c.g
    name, make, fn, _ = o
    gc.collect()
    b = sys.getallocatedblocks()
    for _ in range(n):
        a = c28.realize(make(g), c28.plain)
        if fixed is not None and a and type(a[0]) is type(fixed):
            a[0] = fixed
        try:
            fn(*a)
        except Exception:
            pass
        a = None
    gc.collect()
    return sys.getallocatedblocks() - b


@workload(quick=42, mult=12)
def repeated(c):
    g = c.g
    if not READY:
        gc.collect()
        gc.freeze()
        READY.append(True)
    o = c28.OPS[c.index % len(c28.OPS)]
    recipe = o[1](g)
    fixed = None
    if (c.index // len(c28.OPS)) % 2 and recipe and isinstance(recipe[0], c28.Obj):
        fixed = c28.realize(recipe, c28.plain)[0]
    c.input('operation', o[0]), c.input('first arguments', recipe)
    c.bucket('one object' if fixed is not None else 'fresh arguments')
    growth(c, o, fixed, 20)
    seen = []
    for _ in range(5):
        seen.append(growth(c, o, fixed, STRETCH))
        c.stats.calls[o[0]] = c.stats.calls.get(o[0], 0) + STRETCH
        if seen[-1] < STRETCH / 2:
            break
    c.stats.assertions += len(seen)
    if min(seen) >= STRETCH / 2:
        c.bucket('growing at first')
        late, start = [], time.process_time()
        while len(late) < MORE // 500 and time.process_time() - start < 35:
            late.append(growth(c, o, fixed, 500))
            if late[-1] < 250:
                return
        c.check(len(late) < 5, '%s: %s blocks of memory more after every 500 calls', o[0], late)
