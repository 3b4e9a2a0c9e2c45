"""catch.py [--all-checks] [ID-prefix...]: which checks report which seeded change (scratch copies)."""
import json
import os
import shutil
import subprocess
import sys
import time

HERE = os.path.join(os.path.dirname(os.path.abspath(__file__)), '..')
every = '--all-checks' in sys.argv
want = [a for a in sys.argv[1:] if not a.startswith('--')]
S = os.path.join(HERE, 'seeded')
for i in sorted(os.listdir(S)):
    if want and not any(i.startswith(w) for w in want):
        continue
    prop = json.load(open('%s/%s/meta.json' % (S, i)))['property']
    scratch = '/tmp/catch-%d' % os.getpid()
    shutil.rmtree(scratch, ignore_errors=True)
    subprocess.check_call(['cp', '-a', '/repo', scratch])
    r = subprocess.run(['git', 'apply', os.path.abspath('%s/%s/patch.diff' % (S, i))], cwd=scratch)
    if r.returncode:
        print(i, 'PATCH DOES NOT APPLY')
        continue
    props = [prop] + ([p for p in ('C%02d' % k for k in range(1, 40)) if p != prop and os.path.exists(HERE + '/vmon/props/%s.py' % p.lower())] if every else [])
    got = []
    for p in props:
        t = time.time()
        r = subprocess.run([HERE + '/bin/check', p], cwd=HERE, env=dict(os.environ, VMON_REPO=scratch, VERIF_TIER='quick'), stdout=subprocess.PIPE, stderr=subprocess.STDOUT)
        out = r.stdout.decode(errors='replace')
        hit = r.returncode == 1 and ('VIOLATION property=%s ' % p) in out
        msg = [l for l in out.splitlines() if ': ' in l and 'VIOLATION' not in l]
        if hit or p == prop:
            got.append('%s %s%s (%.0f s) %s' % (p, 'caught' if hit else 'MISSED', '' if r.returncode in (0, 1) else ' rc=%d' % r.returncode, time.time() - t, msg[0][:110] if hit and msg else ''))
    print(i, '|', ' ; '.join(got))
    sys.stdout.flush()
    shutil.rmtree(scratch)
