"""Run one property's workloads: fork workers, watch, write evidence and replays."""
import argparse
import importlib
import json
import mmap
import os
import pickle
import resource
import shutil
import signal
import struct
import subprocess
import sys
import tempfile
import time
import traceback
import warnings

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
WORKERS = int(os.environ.get('VMON_WORKERS', '8'))
CASE_CPU_S = 60
WALL_S = 800


class Hang(BaseException):
    pass


class Lines(object):
    """Which lines of /repo/blmath were executed (each reported once)."""
    TOOL = 4

    def __init__(self, repo):
        self.prefix = os.path.join(repo, 'blmath') + os.sep
        self.hit = set()

    def start(self):
        m = sys.monitoring
        m.use_tool_id(self.TOOL, 'vmon')
        m.register_callback(self.TOOL, m.events.LINE, self.line)
        m.set_events(self.TOOL, m.events.LINE)

    def line(self, code, lineno):
        if code.co_filename.startswith(self.prefix):
            self.hit.add((code.co_filename[len(self.prefix):], lineno))
        return sys.monitoring.DISABLE


def executable_lines(path):
    import types
    lines = set()

    def walk(code):
        lines.update(l for _, _, l in code.co_lines() if l and code.co_name != '<module>')
        for k in code.co_consts:
            if isinstance(k, types.CodeType):
                walk(k)
    walk(compile(open(path).read(), path, 'exec'))
    return lines


def setup_import():
    from vmon.core import REPO
    sys.dont_write_bytecode = True
    sys.path.insert(0, REPO)
    warnings.simplefilter('ignore')
    import blmath
    assert os.path.abspath(blmath.__file__).startswith(os.path.join(REPO, 'blmath')), blmath.__file__


def build_cholmod(extra_cflags=(), out=None, cc='gcc'):
    """Build the native extension from the working tree into a private directory."""
    import sysconfig
    import numpy as np
    from vmon.core import REPO
    out = out or tempfile.mkdtemp(prefix='vmon_ext_')
    so = os.path.join(out, 'cholmod.so')
    cmd = [cc, '-shared', '-fPIC', '-O1', '-g', '-fno-inline', '-w'] + list(extra_cflags) + [
        '-I', sysconfig.get_paths()['include'], '-I', np.get_include(), '-I', '/usr/include/suitesparse',
        os.path.join(REPO, 'blmath/numerics/linalg/cholmod.c'), '-o', so,
        '-llapack', '-lcolamd', '-lamd', '-lcholmod']
    r = subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT)
    if r.returncode:
        raise RuntimeError('cholmod.c does not build:\n' + r.stdout.decode()[-3000:])
    return so


def load_cholmod(so):
    import importlib.machinery
    import importlib.util
    import blmath.numerics.linalg as pkg
    name = 'blmath.numerics.linalg.cholmod'
    loader = importlib.machinery.ExtensionFileLoader(name, so)
    spec = importlib.util.spec_from_file_location(name, so, loader=loader)
    mod = importlib.util.module_from_spec(spec)
    loader.exec_module(mod)
    sys.modules[name] = mod
    pkg.cholmod = mod
    return mod


def run_case(prop, w, seed, index, tier, stats):
    """Returns None or a violation dict."""
    from vmon.core import Case, Violation, Skip
    c = Case(prop, w.name, seed, index, tier, stats)
    msg = tb = None
    signal.setitimer(signal.ITIMER_VIRTUAL, CASE_CPU_S)
    try:
        w.fn(c)
    except Skip:
        stats.skipped += 1
        return None
    except Violation as e:
        msg, tb = str(e), traceback.format_exc()
    except Hang:
        msg = 'did not finish within %d CPU seconds' % CASE_CPU_S
    except MemoryError:
        msg = 'ran out of memory'
    except Exception as e:
        msg = 'the result could not be evaluated: %s: %s' % (type(e).__name__, str(e)[:300])
        tb = traceback.format_exc()
    finally:
        signal.setitimer(signal.ITIMER_VIRTUAL, 0)
    stats.evaluations += 1
    if not c.trivial:
        stats.hashes.add(c.digest())
    if index < 2:
        stats.samples.append({'workload': w.name, 'index': index, 'inputs': c.inputs})
    if msg is not None:
        return {'property': prop, 'workload': w.name, 'seed': seed, 'index': index, 'tier': tier,
                'message': msg, 'inputs': c.inputs, 'traceback': tb}
    return None


def on_vtalrm(signum, frame):
    raise Hang()


def worker(k, n, prop, works, seed, tier, shared, outfile, lines):
    from vmon.core import Stats
    signal.signal(signal.SIGVTALRM, on_vtalrm)
    resource.setrlimit(resource.RLIMIT_AS, (12 << 30, 12 << 30))
    stats, found = Stats(), []
    for wi, w in enumerate(works):
        for index in range(k, w.count(tier), n):
            struct.pack_into('qq', shared, 16 * k, wi, index)
            v = run_case(prop, w, seed, index, tier, stats)
            if v is not None:
                found.append(v)
                break
    struct.pack_into('qq', shared, 16 * k, -1, -1)
    with open(outfile, 'wb') as f:
        pickle.dump((stats, found, lines.hit), f)


def load_property(prop):
    setup_import()
    mod = importlib.import_module('vmon.props.' + prop.lower())
    tmp = None
    if getattr(mod, 'NEEDS_CHOLMOD', False):
        so = build_cholmod()
        tmp = os.path.dirname(so)
        load_cholmod(so)
        shutil.rmtree(tmp)
    if hasattr(mod, 'setup'):
        mod.setup()
    return mod


def write_replay(v):
    d = os.path.join(VERIF, 'replay')
    os.makedirs(d, exist_ok=True)
    path = os.path.join(d, '%s-%s-%s-%s.json' % (v['property'], v['workload'], v['seed'], v['index']))
    with open(path, 'w') as f:
        json.dump(v, f, indent=1, default=str)
    return path


def main():
    ap = argparse.ArgumentParser()
    ap.add_argument('property')
    ap.add_argument('--tier', default=os.environ.get('VERIF_TIER', 'quick'))
    ap.add_argument('--seed', type=int, default=int(os.environ.get('VERIF_SEED', '1')))
    ap.add_argument('--workload')
    a = ap.parse_args()
    prop, tier, seed = a.property, a.tier, a.seed
    t0 = time.time()
    from vmon.core import REPO, Stats, workloads_of
    props = {}
    with open(os.path.join(VERIF, 'properties.jsonl')) as f:
        for l in f:
            d = json.loads(l)
            props[d['id']] = d
    lines = Lines(REPO)
    lines.start()
    mod = load_property(prop)
    from vmon import gen
    gen.constants()
    if hasattr(mod, 'main'):  # properties that drive subprocesses
        stats, found, hit, extra = mod.main(tier, seed)
    else:
        works = [w for w in workloads_of(mod) if not a.workload or w.name == a.workload]
        stats, found, hit = run_parallel(prop, works, seed, tier, lines)
        extra = {}
    seen = set()
    n = 0
    for v in found:
        if v['workload'] in seen:
            continue
        seen.add(v['workload'])
        n += 1
        path = write_replay(v)
        print('%s: %s' % (v['workload'], v['message'][:600]))
        print('VIOLATION property=%s replay=%s' % (prop, path))
    if os.environ.get('VMON_LINES'):  # for tools/lines.py
        json.dump(sorted(hit), open(os.path.join(os.environ['VMON_LINES'], prop + '.json'), 'w'))
    anchors = {}
    for f in props[prop]['anchors']['files']:
        rel = f[len('blmath/'):]
        if f.endswith('.py'):
            try:
                all_lines = executable_lines(os.path.join(REPO, f))
            except (OSError, SyntaxError):
                continue
            got = {l for g, l in hit if g == rel}
            anchors[f] = {'lines_executed': len(got & all_lines), 'lines_in_functions': len(all_lines)}
    coverage = {
        'evaluations': stats.evaluations,
        'distinct_nontrivial': len(stats.hashes),
        'rule': (mod.__doc__ or '').strip(),
        'samples': stats.samples[:12],
        'oracle_assertions': stats.assertions,
        'inputs_outside_domain': stats.skipped,
        'buckets': dict(sorted(stats.buckets.items())),
        'library_calls': dict(sorted(stats.calls.items())),
        'anchored_files': anchors,
    }
    coverage.update(extra)
    ev = {'property': prop, 'tier': tier, 'seed': seed, 'level': 'exploration', 'coverage': coverage,
          'assumptions': ['IEEE doubles; numpy/scipy/OpenCV/CHOLMOD as installed are trusted'],
          'wall_s': round(time.time() - t0, 2), 'violations': n}
    os.makedirs(os.path.join(VERIF, 'evidence'), exist_ok=True)
    with open(os.path.join(VERIF, 'evidence', prop + '.json'), 'w') as f:
        json.dump(ev, f, indent=1, default=str)
    print('%s %s seed=%d: %d cases, %d distinct non-trivial, %d oracle assertions, %d violations, %.1f s' % (
        prop, tier, seed, stats.evaluations, len(stats.hashes), stats.assertions, n, ev['wall_s']))
    if n:
        sys.exit(1)
    if stats.evaluations == 0 or stats.assertions < stats.evaluations or len(stats.hashes) < 2:
        print('INCONCLUSIVE: too few events observed')
        sys.exit(2)
    sys.exit(0)


def run_parallel(prop, works, seed, tier, lines):
    from vmon.core import Stats
    tmp = tempfile.mkdtemp(prefix='vmon_')
    shared = mmap.mmap(-1, 16 * WORKERS)
    sys.stdout.flush()
    pids = {}
    for k in range(WORKERS):
        struct.pack_into('qq', shared, 16 * k, 0, -1)
        pid = os.fork()
        if pid == 0:
            code = 3
            try:
                devnull = os.open(os.devnull, os.O_WRONLY)
                os.dup2(devnull, 1)  # CHOLMOD prints warnings
                worker(k, WORKERS, prop, works, seed, tier, shared, os.path.join(tmp, str(k)), lines)
                code = 0
            except BaseException:
                traceback.print_exc()
            finally:
                os._exit(code)
        pids[pid] = k
    stats, found, hit = Stats(), [], set(lines.hit)
    broken = []
    deadline = time.time() + WALL_S * (1 if tier == 'quick' else 60)
    while pids:
        pid, status = os.waitpid(-1, os.WNOHANG)
        if pid == 0:
            if time.time() > deadline:
                for p in pids:
                    os.kill(p, signal.SIGKILL)
                print('INCONCLUSIVE: out of time')
                sys.exit(2)
            time.sleep(0.02)
            continue
        k = pids.pop(pid, None)
        if k is None:
            continue
        if os.WIFSIGNALED(status):
            wi, index = struct.unpack_from('qq', shared, 16 * k)
            w = works[wi]
            found.append({'property': prop, 'workload': w.name, 'seed': seed, 'index': index, 'tier': tier,
                          'message': 'the process was killed by signal %d' % os.WTERMSIG(status), 'inputs': {}})
        elif os.WEXITSTATUS(status):
            broken.append(k)
        else:
            with open(os.path.join(tmp, str(k)), 'rb') as f:
                s, v, h = pickle.load(f)
            stats.merge(s)
            found += v
            hit |= h
    shutil.rmtree(tmp)
    if broken and not found:
        print('INCONCLUSIVE: worker failed in the harness')
        sys.exit(2)
    found.sort(key=lambda v: v['index'])
    return stats, found, hit


def replay(path):
    from vmon.core import Stats, workloads_of
    with open(path) as f:
        v = json.load(f)
    signal.signal(signal.SIGVTALRM, on_vtalrm)
    mod = load_property(v['property'])
    if hasattr(mod, 'replay'):
        return mod.replay(v)
    w = [w for w in workloads_of(mod) if w.name == v['workload']][0]
    r = run_case(v['property'], w, v['seed'], v['index'], v['tier'], Stats())
    if r is None:
        print('no violation')
        return 0
    print(json.dumps(r['inputs'], indent=1, default=str))
    print(r.get('traceback') or '')
    print(r['message'])
    return 1


if __name__ == '__main__':
    if sys.argv[1] == '--replay':
        sys.exit(replay(sys.argv[2]))
    try:
        main()
    except Exception:
        traceback.print_exc()
        print('INCONCLUSIVE: the harness failed')
        sys.exit(2)
