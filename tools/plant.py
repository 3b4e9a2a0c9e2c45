"""plant.py SPEC.py [ID...]: builds /verif/seeded/<id>/ from specs and confirms each one.

A spec file defines BUGS, a list of dicts: id, property, needs, breaks, edits [(file, old, new)],
demo (python source). Confirmed = applies, stable tests pass, demo 0 on /repo and nonzero with it.
"""
import json
import os
import re
import shutil
import subprocess
import sys

SEEDED = '/verif/seeded'


def stable():
    out = set()
    for t in json.load(open('/opt/vp/BASELINE.json'))['stable']:
        where, name = t.split('::', 1)
        mod, cls = where.rsplit('.', 1)
        out.add('%s.py::%s::%s' % (mod.replace('.', '/'), cls, name))
    return out


def sh(cmd, cwd, timeout=300, **kw):
    return subprocess.run(cmd, shell=isinstance(cmd, str), cwd=cwd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, timeout=timeout, **kw)


def build_native(scratch):
    import glob
    so = glob.glob(scratch + '/blmath/numerics/linalg/cholmod*.so')[0]
    inc = subprocess.check_output(['/opt/venv/bin/python', '-c', 'import sysconfig,numpy;print(sysconfig.get_paths()["include"],numpy.get_include())']).decode().split()
    r = sh(['gcc', '-shared', '-fPIC', '-O2', '-w', '-I', inc[0], '-I', inc[1], '-I', '/usr/include/suitesparse',
            'blmath/numerics/linalg/cholmod.c', '-o', so, '-llapack', '-lcolamd', '-lamd', '-lcholmod'], scratch)
    return r


def main():
    ns = {}
    exec(open(sys.argv[1]).read(), ns)
    want = set(sys.argv[2:])
    base = stable()
    for b in ns['BUGS']:
        if want and b['id'] not in want:
            continue
        d = os.path.join('/tmp/plant/out', b['id'])
        shutil.rmtree(d, ignore_errors=True)
        os.makedirs(d)
        scratch = '/tmp/plant/scratch-%d' % os.getpid()
        shutil.rmtree(scratch, ignore_errors=True)
        sh(['cp', '-a', '/repo', scratch], '/')
        ok = True
        for f, old, new in b['edits']:
            p = os.path.join(scratch, f)
            s = open(p).read()
            if s.count(old) != 1:
                print(b['id'], 'EDIT: %d matches of %r' % (s.count(old), old[:60]))
                ok = False
                break
            open(p, 'w').write(s.replace(old, new))
        if not ok:
            continue
        diff = sh('git diff', scratch).stdout
        open(d + '/patch.diff', 'wb').write(diff)
        open(d + '/demo.py', 'w').write((open('/verif/vmon/shim.py').read() + '\n\nload_chumpy()\n' if b.get('chumpy') else '') + b['demo'].lstrip('\n'))
        open(d + '/demo.sh', 'w').write('#!/bin/bash\n# Run in the repository: 0 if the behaviour is right.\n'
                                        'here="$(cd "$(dirname "$0")" && pwd)"\n'
                                        'PYTHONPATH="$PWD" PYTHONDONTWRITEBYTECODE=1 exec /opt/venv/bin/python -W ignore "$here/demo.py"\n')
        os.chmod(d + '/demo.sh', 0o755)
        json.dump({'property': b['property'], 'needs': b['needs'], 'what_it_breaks': b['breaks']}, open(d + '/meta.json', 'w'), indent=1)
        if any(f.endswith('.c') for f, _, _ in b['edits']):
            r = build_native(scratch)
            if r.returncode:
                print(b['id'], 'BUILD', r.stdout.decode()[-500:])
                continue
        a = sh(['bash', d + '/demo.sh'], '/repo')
        c = sh(['bash', d + '/demo.sh'], scratch)
        t = sh('PYTHONPATH=%s PYTHONDONTWRITEBYTECODE=1 /opt/venv/bin/python -m pytest -q -p no:cacheprovider -rA blmath 2>&1' % scratch, scratch)
        passed = set(re.findall(r'^PASSED (\S+)', t.stdout.decode(), re.M))
        missing = base - passed
        status = []
        if a.returncode != 0:
            status.append('DEMO FAILS UNCHANGED: ' + a.stdout.decode()[-300:])
        if c.returncode == 0:
            status.append('DEMO PASSES WITH BUG')
        elif b'AssertionError' not in c.stdout:
            status.append('(demo: %s)' % c.stdout.decode()[-200:])
        if missing:
            status.append('TESTS FAIL: %s' % sorted(missing)[:4])
        hard = [s for s in status if not s.startswith('(')]
        print(b['id'], 'ok' if not hard else 'REJECTED', ' '.join(status))
        shutil.rmtree(scratch)
        if not hard:
            dest = os.path.join(SEEDED, b['id'])
            shutil.rmtree(dest, ignore_errors=True)
            shutil.copytree(d, dest)
        sys.stdout.flush()


if __name__ == "__main__":
    main()
