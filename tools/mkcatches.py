"""mkcatches.py LOG...: catches.tsv from the output of tools/catch.py (later lines win)."""
import os
import re
import sys
H = os.path.join(os.path.dirname(os.path.abspath(__file__)), '..')
P = os.path.join(H, 'catches.tsv')
old = dict((l.split('\t')[0], l) for l in open(P).read().splitlines()) if os.path.exists(P) else {}
for f in sys.argv[1:]:
    for l in open(f):
        m = re.match(r'(\S+) \| \S+ (caught|MISSED)[^(]*\(\d+ s\) ?(.*)', l)
        if m:
            old[m.group(1)] = '\t'.join([m.group(1), m.group(2), m.group(3).strip()])
old = {k: v for k, v in old.items() if os.path.isdir(os.path.join(H, 'seeded', k))}
open(P, 'w').write('\n'.join(old[k] for k in sorted(old)) + '\n')
