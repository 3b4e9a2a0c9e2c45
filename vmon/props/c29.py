"""Scripted consoles: 0..20 wrong or empty answers (text, units appended, commas, blanks)
before the answer, with and without empty entries allowed, prompts and units of all kinds,
stdin and stdout replaced. Oracle: Python's own reading of the first acceptable line, the
number of lines consumed, and what was shown."""
import io
import sys

import numpy as np
from blmath import console
from blmath.value import Value
from vmon import unitdefs as U
from vmon.core import workload, Violation

WRONG = ['abc', '12 cm', '1,5', 'one', '--3', '1.2.3', '3 4', '5"', '0x10', 'e5', '+', '.', 'None', 'inch', '1e', '$4', '½']


def number_text(g):
    if g.chance(0.05):
        return g.pick(['nan', 'inf', '-inf', 'Infinity', '+inf', 'NaN'])
    x = g.pick([g.number(1e-6, 1e6), float(g.integer(-50, 50)), 0., -0., 1e-300, 1e300, 0.1])
    s = g.pick([repr(x), repr(x), '%g' % x, '%.3f' % x, '%e' % x, '+' + repr(abs(x)), repr(x).rstrip('0') if '.' in repr(x) and 'e' not in repr(x) else repr(x)])
    return g.pick(['', '', ' ', '\t ']) + s + g.pick(['', '', '  '])


def script(c, allow_empty):
    """-> lines typed, what must be returned, how many lines are needed"""
    g = c.g
    lines = []
    while True:
        r = g.rng.random()
        if r < 0.35:
            lines.append(g.pick(WRONG))
        elif r < 0.5 and len(lines) < 20:
            lines.append(g.pick(['', '', ' ', '\t']))
            if allow_empty:
                want = None
                break
        else:
            lines.append(number_text(g))
            want = float(lines[-1])
            break
        if len(lines) > 19:
            lines.append('7.25')
            want = 7.25
            break
    need = len(lines)
    lines += [g.pick(['99', 'abc', '', '-1'])] * 2
    return lines, want, need


class Console(object):
    def __init__(self, lines):
        self.i, self.o = io.StringIO('\n'.join(lines) + '\n'), io.StringIO()

    def __enter__(self):
        self.saved = sys.stdin, sys.stdout
        sys.stdin, sys.stdout = self.i, self.o
        return self

    def __exit__(self, *a):
        sys.stdin, sys.stdout = self.saved

    def left(self):
        return self.i.read().split('\n')[:-1]


def kwargs(g, allow_empty):
    return {'allow_empty': allow_empty} if allow_empty or g.chance(0.5) else {}


@workload(quick=4000)
def floats(c):
    g = c.g
    empty = c.input('allow_empty', g.chance(0.5))
    lines, want, need = script(c, empty)
    c.input('lines', lines)
    c.bucket('asked %d times' % min(need, 5), 'empty' if want is None else 'number')
    prompt = g.pick(['Height', 'How tall: ', 'Enter #? '])
    with Console(lines) as t:
        got = c.call(console.input_float, prompt, **kwargs(g, empty))
    if want is None:
        c.check(got is None, 'an empty entry returns %r', got)
    else:
        c.check(type(got) is float and (got == want or got != got and want != want) and np.signbit(got) == np.signbit(want), '%r returns %r', lines[need - 1], got)
    c.check(t.left() == lines[need:], '%d of %d lines were read, expected %d', len(lines) - len(t.left()), len(lines), need)
    c.check(t.o.getvalue().count(prompt.rstrip(' :')) == need, 'the prompt is shown %d times', t.o.getvalue().count(prompt.rstrip(' :')))


@workload(quick=4000)
def values(c):
    g = c.g
    empty = c.input('allow_empty', g.chance(0.5))
    lines, want, need = script(c, empty)
    u = c.input('units', g.pick(U.NAMES))
    label = c.input('label', g.pick(['Height', 'waist circumference', 'w', '{}', '{0} {1}', '%s of %d%%', 'Gr\u00f6\u00dfe', 'a\\b', '50% {x', 'size (all)', '{units}']))
    c.input('lines', lines)
    c.bucket('asked %d times' % min(need, 5), 'empty' if want is None else 'number')
    with Console(lines) as t:
        got = c.call(console.input_value, label, u, **kwargs(g, empty))
    if want is None:
        c.check(got is None, 'an empty entry returns %r', got)
    else:
        c.check(isinstance(got, Value), 'returns %r', got)
        c.check((got.value == want or got.value != got.value and want != want) and np.signbit(got.value) == np.signbit(want) and got.units == u, '%r returns %r %r', lines[need - 1], got.value, got.units)
    c.check(t.left() == lines[need:], '%d of %d lines were read, expected %d', len(lines) - len(t.left()), len(lines), need)
    shown = t.o.getvalue()
    c.check(shown.count(label) >= need and shown.count('(%s)' % u) >= need, 'label and units are not shown each time: %r', shown[:200])


@workload(quick=300)
def exhausted(c):
    """No answer at all never becomes a number."""
    g = c.g
    lines = [g.pick(WRONG + ['', ' ']) for _ in range(g.integer(0, 5))]
    c.input('lines', lines), c.input('i', c.index)
    with Console(lines) as t:
        t.i = sys.stdin = io.StringIO(''.join(l + '\n' for l in lines))
        try:
            got = console.input_float('Height')
        except EOFError:
            got = None
            c.check(True, '')
        else:
            raise Violation('end of input returns %r' % (got,))
