"""C24: the native code is rebuilt from the working tree and driven with good and hostile
matrices under AddressSanitizer+UBSan (instrumented extension) and under valgrind memcheck
(uninstrumented, which also watches CHOLMOD itself); a third process watches the allocator's
bytes in use and reference counts over thousands of calls."""
import json
import os
import shutil
import subprocess
import sys
import tempfile
import time
import xml.etree.ElementTree as ET

from vmon.core import Stats

VERIF = os.path.dirname(os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
WORKERS = int(os.environ.get('VMON_WORKERS', '8'))


def command(mode, so, seed, first, count, work, tag, tier):
    ev, log = os.path.join(work, tag + '.events'), os.path.join(work, tag + '.log')
    argv = [sys.executable, '-m', 'vmon.native_child', mode, so, str(seed), str(first), str(count), ev, tier]
    env = dict(os.environ, PYTHONMALLOC='malloc', PYTHONPATH=VERIF, PYTHONDONTWRITEBYTECODE='1', OPENBLAS_NUM_THREADS='1', OMP_NUM_THREADS='1')
    if mode == 'asan':
        lib = subprocess.check_output(['gcc', '-print-file-name=libasan.so']).decode().strip()
        env.update(LD_PRELOAD=os.path.realpath(lib), ASAN_OPTIONS='detect_leaks=0:halt_on_error=1:log_path=%s:allocator_may_return_null=1' % log,
                   UBSAN_OPTIONS='print_stacktrace=1:halt_on_error=1:log_path=%s' % log)
    if mode == 'growth':  # freed chunks kept in caches would count as in use
        env.update(GLIBC_TUNABLES='glibc.malloc.tcache_count=0:glibc.malloc.mxfast=0')
    if mode == 'memcheck':
        # the suppression: whether numpy leaves padding undefined is not the question here
        argv = ['valgrind', '-q', '--error-limit=no', '--track-origins=yes', '--num-callers=40', '--xml=yes', '--xml-file=' + log] + argv
    return argv, env, ev, log


def events(path):
    out = []
    try:
        with open(path) as f:
            for l in f:
                try:
                    out.append(json.loads(l))
                except ValueError:
                    pass
    except OSError:
        pass
    return out


def memcheck_errors(log, so):
    """[(index unknown) message] for errors that involve the extension."""
    try:
        text = open(log).read()
    except OSError:
        return []
    if not text.rstrip().endswith('</valgrindoutput>'):
        text = text.rstrip()
        text = text[:text.rfind('</error>') + 8] + '</valgrindoutput>' if '</error>' in text else '<x/>'
    try:
        root = ET.fromstring(text)
    except ET.ParseError:
        return []
    out = []
    for e in root.iter('error'):
        kind = e.findtext('kind') or ''
        if kind.startswith('Leak'):
            continue
        frames = [(f.findtext('obj') or '', f.findtext('fn') or '?', f.findtext('line') or '') for f in e.iter('frame')]
        mine = [f for f in frames if os.path.basename(f[0]) == os.path.basename(so)]
        if mine:
            what = e.findtext('what') or e.findtext('xwhat/text') or ''
            out.append('memcheck: %s: %s; in %s line %s; innermost %s' % (kind, what, mine[0][1], mine[0][2], ' < '.join(f[1] for f in frames[:4])))
    return out


def asan_errors(log):
    d, base = os.path.split(log)
    out = []
    for f in sorted(os.listdir(d)):
        if f.startswith(base + '.'):
            text = open(os.path.join(d, f), errors='replace').read()
            lines = [l for l in text.splitlines() if 'ERROR:' in l or 'runtime error:' in l or l.startswith('SUMMARY')]
            frames = [l.strip() for l in text.splitlines() if 'cholmod.c:' in l][:2]
            if lines:
                out.append('; '.join(lines[:2] + frames)[:600])
    return out


def build(work):
    from vmon.run import build_cholmod
    sos = {}
    for mode, flags in (('asan', ['-fsanitize=address,undefined', '-fno-omit-frame-pointer', '-fno-sanitize-recover=undefined']), ('memcheck', []), ):
        d = os.path.join(work, mode)
        os.mkdir(d)
        sos[mode] = build_cholmod(flags, out=d)
    sos['growth'] = sos['memcheck']
    return sos


def run(jobs, tier, seed, stats, found, extra):
    """jobs: [(mode, first, count)]"""
    work = tempfile.mkdtemp(prefix='vmon_native_')
    try:
        sos = build(work)
        limit = time.time() + (780 if tier == 'quick' else 6 * 3600)
        queue, live = list(enumerate(jobs)), []
        outputs = []
        while queue or live:
            while queue and len(live) < WORKERS:
                n, (mode, first, count) = queue.pop(0)
                argv, env, ev, log = command(mode, sos[mode], seed, first, count, work, 'job%d' % n, tier)
                err = open(log + '.err', 'wb')
                p = subprocess.Popen(argv, env=env, cwd=VERIF, stdout=subprocess.DEVNULL, stderr=err, stdin=subprocess.DEVNULL)
                live.append((p, mode, first, count, ev, log))
            time.sleep(0.05)
            for item in list(live):
                if item[0].poll() is not None:
                    live.remove(item)
                    outputs.append(item)
            if time.time() > limit:
                for item in live:
                    item[0].kill()
                raise RuntimeError('out of time')
        for p, mode, first, count, ev, log in outputs:
            es = events(ev)
            last = max([e['start'] for e in es if 'start' in e] or [first])
            base = {'property': 'C24', 'workload': mode, 'seed': seed, 'tier': tier, 'first': first, 'inputs': {}}
            for e in es:
                if 'bad' in e:
                    found.append(dict(base, index=e['bad'], message=e['what']))
            for msg in asan_errors(log) if mode == 'asan' else memcheck_errors(log, sos[mode]) if mode == 'memcheck' else []:
                found.append(dict(base, index=last, message=msg))
            dones = [e for e in es if 'done' in e]
            for e in dones:
                stats.evaluations += 1
                stats.assertions += e['asserted']
                stats.hashes.add(e['digest'])
                k = '%s/%s: %s' % (mode, e['label'], e['outcome'])
                stats.buckets[k] = stats.buckets.get(k, 0) + 1
                stats.calls['lchol under ' + mode] = stats.calls.get('lchol under ' + mode, 0) + e.get('calls', 1)
                if 'steps' in e:
                    extra.setdefault('bytes_in_use_after_each_150_calls', {}).setdefault(e['label'], e['steps'])
            for e in dones[:1]:
                stats.samples.append({'workload': mode, 'index': e['done'], 'inputs': e['label']})
            if p.returncode != 0 or not any('end' in e for e in es):
                err = open(log + '.err', errors='replace').read()
                if not any('start' in e for e in es):
                    raise RuntimeError('%s child did not start: %s' % (mode, err[-1500:]))
                if p.returncode < 0 or p.returncode >= 128 or asan_errors(log) or 'Traceback' not in err:
                    found.append(dict(base, index=last, message='the interpreter died (status %d) while factorizing: %s' % (
                        p.returncode, (asan_errors(log) or [err[-300:]])[0])))
                else:
                    raise RuntimeError('%s child failed: %s' % (mode, err[-1500:]))
    finally:
        shutil.rmtree(work)


def main(tier, seed):
    scale = float(os.environ.get('VMON_SCALE', '1')) * (20 if tier == 'thorough' else 1)
    rounds = max(1, int(round(scale)))
    jobs = []
    for r in range(rounds):
        for k in range(3):
            jobs.append(('memcheck', (3 * r + k) * 10000, 110 if scale >= 1 else 30))
        for k in range(4):
            jobs.append(('asan', 5000000 + (4 * r + k) * 10000, 900 if scale >= 1 else 100))
        jobs.append(('growth', 9000000 + r * 8, 8))
    stats, found, extra = Stats(), [], {}
    run(jobs, tier, seed, stats, found, extra)
    found.sort(key=lambda v: v['index'])
    return stats, found, set(), extra


def replay(v):
    found = []
    run([(v['workload'], v['first'], v['index'] - v['first'] + 1)], v['tier'], v['seed'], Stats(), found, {})
    for f in found:
        print(f['message'])
    print('no violation' if not found else '%d reports' % len(found))
    return 1 if found else 0
