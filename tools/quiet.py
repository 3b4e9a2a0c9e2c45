"""Applies quiet/*.diff (rewrites that keep the behaviour) to a scratch copy of /repo and runs
every check against it: all must stay quiet.  python3 tools/quiet.py [seed...]"""
import glob
import os
import shutil
import subprocess
import sys
import tempfile

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))


def main():
    seeds = sys.argv[1:] or ['1']
    bad = 0
    for diff in sorted(glob.glob(HERE + '/quiet/*.diff')):
        tmp = tempfile.mkdtemp(prefix='quiet')
        try:
            repo = tmp + '/repo'
            subprocess.check_call(['cp', '-a', '/repo', repo])
            subprocess.check_call(['git', '-C', repo, 'apply', diff])
            for k in range(1, 33):
                for seed in seeds:
                    r = subprocess.run([HERE + '/bin/check', 'C%02d' % k, '--seed', seed], env=dict(os.environ, VMON_REPO=repo), stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
                    if r.returncode:
                        bad += 1
                        print('ALARM', os.path.basename(diff), 'C%02d' % k, 'seed', seed, '\n'.join(r.stdout.strip().split('\n')[-3:])[:600], flush=True)
        finally:
            shutil.rmtree(tmp)
    print('%d alarms' % bad)


main()
