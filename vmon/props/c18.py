"""All ordered pairs of the 40+ units (every pair at least once in either tier), triples of one
kind, stated kinds right and wrong, unknown names, numbers of any sign and size, lists of
0..200, defaults with exceptions, interleaved with edits of returned lists and dictionaries.
Oracle: an independent table of SI / legal definitions (pound, stone and year to the six
digits tabulated by the library)."""
from fractions import Fraction

import numpy as np
from blmath import units
from vmon import unitdefs as U
from vmon.core import workload

BAD = ['furlong', 'CM', ' cm', 'cm ', 'parsec', 'kgs', 'length', 'metres', 'x']
PAIRS = [(a, b) for a in U.NAMES for b in U.NAMES]


def number(g):
    return g.pick([g.number(1e-6, 1e6), g.number(), g.integer(-1000, 1000), 0, 1.0])


def near(c, got, want, rtol, what):
    c.check(isinstance(got, (int, float, np.floating, np.integer)) and abs(got - want) <= rtol * abs(want), '%s: %r, expected %r', what, got, want)


@workload(quick=len(PAIRS) * 2, mult=10)
def pairs(c):
    g = c.g
    a, b = c.input('units', PAIRS[c.index % len(PAIRS)])
    ka, kb = U.KIND[a], U.KIND[b]
    x = c.input('value', number(g))
    wrong = g.pick([k for k in U.KINDS if k not in (ka,)])
    if ka != kb:
        c.bucket('different kinds')
        c.raises(ValueError, units.factor, a, b)
        c.raises(ValueError, units.convert, x, a, b)
        c.raises(ValueError, units.convert, None, a, b)
        c.raises(ValueError, units.convert_list, [x], a, b)
        for k in (ka, kb, wrong):
            c.raises(ValueError, units.factor, a, b, units_class=k)
        return
    c.bucket('aliases' if U.ALIASES[a] is U.ALIASES[b] else ka)
    f, tol = U.factor(a, b)
    got = c.call(units.factor, a, b)
    near(c, got, f, tol, 'factor %s -> %s' % (a, b))
    near(c, c.call(units.factor, a, b, units_class=ka), got, 0, 'factor with the stated kind')
    near(c, c.call(units.factor, b, a), 1 / got, 1e-15, 'inverse')
    if U.ALIASES[a] is U.ALIASES[b]:
        near(c, got, 1., 1e-15, 'aliases %s, %s' % (a, b))
    m = g.pick(U.of_kind(ka))
    near(c, units.factor(a, m) * units.factor(m, b), got, 1e-14, 'through %s' % m)
    near(c, units.raw(a) / units.raw(b), got, 1e-14, 'raw factors')
    v, u = c.call(units.convert, x, a, b) if g.chance(0.5) else c.call(units.convert, x, a, b, units_class=ka)
    near(c, v, x * got, 1e-15, 'converted value')
    c.check(u == b, 'converted to %r', u)
    c.check(c.call(units.convert, None, a, b) == (None, None), 'nothing converts to something')
    xs = [number(g) for _ in range(g.size(0, 200 if g.chance(0.05) else 8))]
    given = list(xs)
    ys = c.call(units.convert_list, given, a, b)
    c.check(isinstance(ys, list) and len(ys) == len(xs), 'converted list %r', ys)
    c.check(ys is not given and given == xs, 'the list given is not kept apart from the converted one')
    for p, q in zip(xs, ys):
        near(c, q, p * got, 1e-15, 'converted list')
    none = g.pick([(None, None), (None, ''), ('', None), ('', '')])
    near(c, c.call(units.factor, *none), 1., 0, 'factor between no units and no units')
    v, u = c.call(units.convert, x, *none)
    near(c, v, x, 0, 'a number without units')
    c.check(u == none[1], 'no units become %r', u)
    # wrong kind stated; unknown names
    c.raises(ValueError, units.factor, a, b, units_class=wrong)
    c.raises(ValueError, units.convert, x, a, b, units_class=wrong)
    bad = g.pick(BAD)
    for pair in ((a, bad), (bad, a), (bad, bad), (None, a), (a, None), ('', a), (a, '')):
        c.raises(Exception, units.factor, *pair)
        c.raises(Exception, units.convert, x, *pair)


@workload(quick=2500)
def defaults(c):
    g = c.g
    a = c.input('from', g.pick(U.NAMES + [None, '']))
    x = c.input('value', number(g))
    system = c.input('system', g.pick(sorted(U.SYSTEMS)))
    exc = {}
    for k in U.KINDS:
        if g.chance(0.3):
            exc[k] = g.pick(U.of_kind(k))
    c.input('exceptions', sorted(exc.items()))
    # whatever callers do with what they got earlier
    if g.chance(0.5):
        d = units.default_units(system)
        d['length'] = 'fathoms'
        d.pop('weight')
    if g.chance(0.3):
        units.default_units(g.pick(sorted(U.SYSTEMS)), exceptions=exc)
    if g.chance(0.3):
        units.units_in_class('length').append('kg')
    if system == 'metric' and g.chance(0.5):
        d = c.call(units.default_units, exceptions=exc) if exc else c.call(units.default_units)
    else:
        d = c.call(units.default_units, system, exc) if exc else c.call(units.default_units, system)
    want = dict(U.SYSTEMS[system], **exc)
    c.check(d == want, 'defaults %r, expected %r', d, want)
    keep = dict(exc)
    got = c.call(units.convert_to_default, x, a, d)
    if g.chance(0.5) and system == 'metric':
        sysgot = c.call(units.convert_to_system_default, x, a)
    else:
        sysgot = c.call(units.convert_to_system_default, x, a, system)
    c.check(exc == keep and d == want, 'an argument was changed')
    for (v, u), table in ((got, want), (sysgot, U.SYSTEMS[system])):
        if not a:
            c.check(v == x and u == a, 'unitless %r, %r', v, u)
            continue
        t = table[U.KIND[a]]
        f, tol = U.factor(a, t)
        c.check(u == t, 'default units %r, expected %r', u, t)
        near(c, v, x * f, tol + 1e-15, 'default value')
    if a:
        c.check(units.convert_to_default(None, a, d) == (None, None), 'nothing converts to something')
    c.raises(Exception, units.default_units, g.pick(['imperial', 'Metric', 'us']))
    c.raises(Exception, units.convert_to_system_default, x, g.pick(BAD), system)


INC = {'cm': Fraction(1, 2), 'in': Fraction(1, 4), 'kg': Fraction(1, 2), 'lb': Fraction(1), 'yr': Fraction(1)}


@workload(quick=4000)
def pretty(c):
    g = c.g
    a = c.input('units', g.pick(U.NAMES))
    x = c.input('value', float(g.pick([g.number(1e-3, 1e5), g.number(), g.integer(0, 300)])))
    p = c.input('precision', g.pick([None, None, 0, 1, 2, 3, 5, -1, -2, -3]))
    got = c.call(units.prettify, x, a) if p is None and g.chance(0.5) else c.call(units.prettify, x, a, precision=p)
    c.check(isinstance(got, tuple) and len(got) == 4, 'pretty form %r', got)
    for (v, u), system in ((got[:2], 'metric'), (got[2:], 'united_states')):
        t = U.SYSTEMS[system][U.KIND[a]]
        c.check(u == t, 'pretty units %r, expected %r', u, t)
        exact = Fraction(float(x)) * Fraction(float(units.factor(a, t)))
        inc = (INC.get(t, Fraction(1, 10)) if p is None else Fraction(10) ** -p)
        k = Fraction(float(v)) / inc
        c.check(abs(k - round(k)) <= Fraction(1, 10 ** 12) * max(1, abs(k)), '%r %s is not a multiple of %s', v, u, inc)
        c.check(abs(round(k) * inc - exact) <= inc / 2 + abs(exact) / 10 ** 13, '%r %s -> %r %s is not the nearest', x, a, v, u)


@workload(quick=60)
def listings(c):
    g = c.g
    c.input('case', c.index)
    c.check(sorted(units.all_units) == U.NAMES, 'all units: %r', sorted(units.all_units))
    c.check(sorted(units.all_units_classes) == U.KINDS, 'kinds: %r', units.all_units_classes)
    total = []
    for k, listing in zip(('length', 'weight', 'angle', 'time', 'time_rate'), (units.lengths, units.weights, units.angles, units.times, units.time_rates)):
        c.check(sorted(listing) == U.of_kind(k), '%s: %r', k, listing)
        got = c.call(units.units_in_class, k)
        c.check(sorted(got) == U.of_kind(k), '%s: %r', k, got)
        total += got
        got.append('junk')
        got.sort()
    c.check(sorted(total) == U.NAMES, 'the kinds do not partition the units')
    c.check(list(c.call(units.units_in_class, 'colour')) == [], 'a kind that is none has units')
    n = g.pick(U.NAMES)
    c.check(c.call(units.units_class, n) == U.KIND[n], 'kind of %s', n)
    c.check(units.units_class(None) is None and units.units_class('') is None, 'kind of no units')
    c.raises(Exception, units.units_class, g.pick(BAD))
