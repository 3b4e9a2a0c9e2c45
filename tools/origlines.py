"""Which seeded changes touch (remove or sit beside) lines of the original repository."""
import os, re, subprocess
HERE = os.path.join(os.path.dirname(os.path.abspath(__file__)), '..')
S = HERE + '/seeded'
BASE = '2150d0e'
cache = {}


def original(f):
    """line number at HEAD -> is from the base commit"""
    if f not in cache:
        out = subprocess.check_output(['git', '-C', '/repo', 'blame', '-s', '-l', '--root', 'HEAD', '--', f]).decode(errors='replace').splitlines()
        mine = set(subprocess.check_output(['git', '-C', '/repo', 'rev-list', BASE + '..HEAD']).decode().split())
        cache[f] = [l.split()[0].lstrip('^') not in mine for l in out]
    return cache[f]


for i in sorted(os.listdir(S)):
    f, n, hits, total, beside = None, 0, 0, 0, 0
    for l in open('%s/%s/patch.diff' % (S, i)):
        if l.startswith('+++ b/'):
            f = l[6:].strip()
        elif l.startswith('@@'):
            n = int(re.match(r'@@ -(\d+)', l).group(1))
        elif l.startswith('-') and not l.startswith('---'):
            total += 1
            hits += n <= len(original(f)) and original(f)[n - 1] and bool(l[1:].strip())
            n += 1
        elif l.startswith('+') and not l.startswith('+++'):
            beside += 1 < n <= len(original(f)) and original(f)[n - 2] and original(f)[n - 1]
        elif l.startswith(' '):
            n += 1
    if not hits and (total or not beside):
        print(i, '%d of %d removed lines are original, %d added lines between original ones' % (hits, total, beside))
