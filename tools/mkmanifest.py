"""Writes /verif/MANIFEST.json from properties.jsonl and the notes below."""
import json
import os

HERE = os.path.join(os.path.dirname(os.path.abspath(__file__)), '..')
TECH = 'runtime monitoring: '
T = {
    'C03': 'reference-model monitor over generated call histories, 80-bit arithmetic',
    'C04': 'reference-model monitor over generated call histories, 80-bit arithmetic',
    'C09': 'runtime graph monitor: returned polylines matched against an independently rebuilt crossing graph',
    'C10': 'reference-model monitor over generated histories, every live object checked after every step',
    'C23': 'runtime oracle over generated matrices, factors multiplied out in 80-bit arithmetic',
    'C24': 'AddressSanitizer + UBSan, valgrind memcheck and allocator-growth monitoring of the native code under a hostile workload',
    'C27': 'runtime oracle over generated meshes and change histories, analytic Jacobians',
    'C28': 'purity monitor: bitwise snapshots of arguments and global state around interleaved calls, differential repeats and layouts',
    'C30': 'seeded scheduler switching threads at lines and instructions of blmath (sys.monitoring), answers compared with those given alone',
    'C31': 'differential monitor: every computation on copied, deep-copied and pickled objects against the untouched ones, before and after changes',
    'C32': 'allocation monitor: interpreter block counts over hundreds to thousands of calls of every function',
    'C29': 'trace monitor over scripted console sessions',
    'C18': 'runtime oracle over all unit pairs against an independent exact table',
    'C22': 'runtime oracle over generated inputs, exact rational arithmetic',
    'C20': 'runtime round-trip oracle over generated documents',
}
DEFAULT = 'runtime oracle over generated hostile inputs, 80-bit reference arithmetic'
NOTE = ('Every execution generated from VERIF_SEED is judged by an independent oracle; nothing is said about inputs '
        'not executed. Trusts: IEEE doubles, numpy/scipy/OpenCV/CHOLMOD as installed, and the oracle. ')
EXTRA = {
    'C08': 'End points exactly on the plane are judged where arithmetic is exact (planes along an axis).',
    'C09': 'General position only: planes through a vertex and unwelded meshes are not judged.',
    'C12': 'General position only: vertices on the plane are not judged.',
    'C13': 'Skew lines in space are not judged.',
    'C17': 'lace.topology.quads_to_tris (not installed here) is supplied by the harness.',
    'C23': 'cholmod.c is rebuilt from the working tree into a private directory.',
    'C24': 'CHOLMOD itself is watched by memcheck, not instrumented. Leaks are found by growth over repeated calls.',
    'C27': 'chumpy needs a compatibility layer on this numpy, supplied by the harness.',
    'C30': 'C calls (numpy, CHOLMOD) are one step for the scheduler; only the free-running cases overlap inside them; there the warning filters, which scikit-learn itself swaps, are not judged.',
    'C31': 'Products of transforms are compared within 1e-11 relative.',
    'C32': 'Counts Python memory blocks; native leaks are C24. Memories of up to 5000 entries are accepted.',
    'C28': 'Layouts are compared within 1e-7 relative, repeats within 1e-12.',
}
checks = []
with open(os.path.join(HERE, 'properties.jsonl')) as f:
    for line in f:
        i = json.loads(line)['id']
        checks.append({'property': i, 'quick_cmd': 'bin/check %s --tier quick' % i,
                       'thorough_cmd': 'bin/check %s --tier thorough' % i,
                       'technique': T.get(i, DEFAULT), 'level': 'exploration',
                       'level_note': NOTE + EXTRA.get(i, '')})
with open(os.path.join(HERE, 'MANIFEST.json'), 'w') as f:
    json.dump({'version': 1, 'setup_cmd': 'bin/setup.sh', 'checks': checks, 'not_applicable': [],
               'notes': 'No hooks in /repo: every property is observed at the public API, and the native '
                        'code is instrumented by rebuilding it. Findings repaired: known_findings.txt.'}, f, indent=1)
    f.write('\n')
