"""lines.py: lines inside blmath functions which no check executes (all quick checks together)."""
import glob
import json
import os
import subprocess
import sys
import tempfile

HERE = os.path.realpath(os.path.join(os.path.dirname(os.path.abspath(__file__)), '..'))
sys.path.insert(0, HERE)
from vmon.run import executable_lines  # noqa: E402

hit = set()
with tempfile.TemporaryDirectory() as d:
    for k in range(1, 40):
        if os.path.exists(HERE + '/vmon/props/c%02d.py' % k):
            subprocess.call([HERE + '/bin/check', 'C%02d' % k], cwd=HERE, env=dict(os.environ, VMON_LINES=d), stdout=subprocess.DEVNULL)
    for f in glob.glob(d + '/*.json'):
        hit |= set(map(tuple, json.load(open(f))))
for f in sorted(glob.glob('/repo/blmath/**/*.py', recursive=True)):
    if os.path.basename(f).startswith('test_'):
        continue
    rel = f[len('/repo/blmath/'):]
    src = open(f).read().splitlines()
    for l in sorted(executable_lines(f)):
        t = src[l - 1].strip()
        if (rel, l) not in hit and not t.startswith(('def ', '@', 'class ', "'''", 'if __name')):
            print('%s:%d: %s' % (rel, l, t))
