"""Unit definitions, written down independently of blmath: SI and legal definitions.
name -> (kind, size in the base unit, relative tolerance, aliases)"""
import math

DEFS = [
    ('length', 1.0, 1e-15, ['m', 'meter', 'meters']),
    ('length', 0.001, 1e-15, ['mm', 'millimeter', 'millimeters']),
    ('length', 0.01, 1e-15, ['cm', 'centimeter', 'centimeters']),
    ('length', 0.0254, 1e-15, ['in', 'inch', 'inches']),
    ('length', 0.3048, 1e-15, ['ft', 'foot', 'feet']),
    ('length', 1.8288, 1e-15, ['fathoms']),
    ('length', 0.4572, 1e-15, ['cubits']),
    ('weight', 1.0, 1e-15, ['kg', 'kilograms']),
    ('weight', 0.001, 1e-15, ['g', 'grams']),
    ('weight', 0.45359237, 1.5e-6, ['lb', 'lbs', 'pounds']),  # tabulated to six digits
    ('weight', 6.35029318, 1.5e-6, ['stone']),
    ('angle', 1.0, 1e-15, ['deg', 'degrees']),
    ('angle', 180 / math.pi, 1e-15, ['rad', 'radians']),
    ('time', 1.0, 1e-15, ['sec', 'second', 'seconds']),
    ('time', 60.0, 1e-15, ['min', 'minute', 'minutes']),
    ('time', 3600.0, 1e-15, ['hr', 'hour', 'hours']),
    ('time', 86400.0, 1e-15, ['day', 'days']),
    ('time', 86400 * 365.242, 1.5e-6, ['yr', 'year', 'years']),
    ('time_rate', 1.0, 1e-15, ['hours_per_week']),
]
KIND, SIZE, RTOL, ALIASES = {}, {}, {}, {}
for k, s, t, names in DEFS:
    for n in names:
        KIND[n], SIZE[n], RTOL[n], ALIASES[n] = k, s, t, names
NAMES = sorted(KIND)
KINDS = sorted(set(KIND.values()))
SYSTEMS = {
    'metric': {'length': 'cm', 'weight': 'kg', 'angle': 'deg', 'time': 'yr', 'time_rate': 'hours_per_week'},
    'united_states': {'length': 'in', 'weight': 'lb', 'angle': 'deg', 'time': 'yr', 'time_rate': 'hours_per_week'},
}


def of_kind(k):
    return [n for n in NAMES if KIND[n] == k]


def factor(a, b):
    """-> factor, relative tolerance"""
    same = ALIASES[a] is ALIASES[b]
    return (1.0 if same else SIZE[a] / SIZE[b]), (1e-15 if same else 1e-15 + RTOL[a] + RTOL[b])
