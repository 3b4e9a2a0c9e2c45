"""chumpy 0.70 predates numpy 1.24 and Python 3.11. Give it the names it wants while it
is imported, and take them away again so that blmath itself is not served by them."""
import inspect
from collections import namedtuple

import numpy as np


def load_chumpy():
    if not hasattr(inspect, 'getargspec'):
        spec = namedtuple('ArgSpec', 'args varargs keywords defaults')

        def getargspec(f):
            s = inspect.getfullargspec(f)
            return spec(s.args, s.varargs, s.varkw, s.defaults)
        inspect.getargspec = getargspec
    added = []
    for n, t in dict(int=int, float=float, complex=complex, object=object, unicode=str, str=str, bool=np.bool_).items():
        if n not in np.__dict__:
            setattr(np, n, t)
            added.append(n)
    import chumpy
    for n in added:
        delattr(np, n)
    return chumpy
