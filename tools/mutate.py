"""mutate.py OUT [--procs N] [--files a,b] [--limit N] [--seed S]: one-place changes to blmath's
syntax trees, in scratch copies. Those the repository's stable tests let through are given to
the checks of the properties anchored in the file (and C28); OUT lists what nobody reports.
Survivors are either equivalent, outside every property, or gaps: to be read by hand."""
import argparse
import ast
import copy
import json
import os
import random
import re
import shutil
import subprocess
import sys
from concurrent.futures import ThreadPoolExecutor
from queue import Queue

HERE = os.path.realpath(os.path.join(os.path.dirname(os.path.abspath(__file__)), '..'))
sys.path.insert(0, os.path.join(HERE, 'tools'))
from plant import stable  # noqa: E402

CMP = {ast.Lt: [ast.LtE, ast.Gt], ast.LtE: [ast.Lt, ast.GtE], ast.Gt: [ast.GtE, ast.Lt], ast.GtE: [ast.Gt, ast.LtE],
       ast.Eq: [ast.NotEq], ast.NotEq: [ast.Eq], ast.Is: [ast.IsNot], ast.IsNot: [ast.Is], ast.In: [ast.NotIn], ast.NotIn: [ast.In]}
BIN = {ast.Add: [ast.Sub], ast.Sub: [ast.Add], ast.Mult: [ast.Div], ast.Div: [ast.Mult, ast.FloorDiv], ast.FloorDiv: [ast.Div], ast.Mod: [ast.Mult],
       ast.BitAnd: [ast.BitOr], ast.BitOr: [ast.BitAnd], ast.Pow: [ast.Mult]}


def variants(n):
    """[(description, replacement)] for one node; statements are replaced by a statement."""
    out = []
    if isinstance(n, ast.Compare) and len(n.ops) == 1:
        for t in CMP.get(type(n.ops[0]), []):
            m = copy.deepcopy(n)
            m.ops = [t()]
            out.append(m)
    if isinstance(n, ast.BinOp):
        for t in BIN.get(type(n.op), []):
            m = copy.deepcopy(n)
            m.op = t()
            out.append(m)
    if isinstance(n, ast.AugAssign):
        for t in BIN.get(type(n.op), []):
            m = copy.deepcopy(n)
            m.op = t()
            out.append(m)
    if isinstance(n, ast.BoolOp):
        m = copy.deepcopy(n)
        m.op = ast.Or() if isinstance(n.op, ast.And) else ast.And()
        out.append(m)
        for i in range(len(n.values)):
            if len(n.values) == 2:
                out.append(copy.deepcopy(n.values[1 - i]))
    if isinstance(n, ast.UnaryOp):
        out.append(copy.deepcopy(n.operand))
    if isinstance(n, ast.Constant):
        v = n.value
        if isinstance(v, bool):
            out.append(ast.Constant(not v))
        elif isinstance(v, int):
            out += [ast.Constant(v + 1), ast.UnaryOp(ast.USub(), ast.Constant(1 - v)) if v <= 0 else ast.Constant(v - 1)]
        elif isinstance(v, float):
            out += [ast.Constant(v * 1000), ast.Constant(v / 1000), ast.Constant(v * 1.001)] if v else [ast.Constant(1.)]
    if isinstance(n, (ast.If, ast.IfExp, ast.While)):
        for b in (True, False):
            if isinstance(n, ast.While) and b:
                continue
            m = copy.deepcopy(n)
            m.test = ast.Constant(b)
            out.append(m)
    if isinstance(n, ast.Call):
        for i in range(len(n.keywords)):
            m = copy.deepcopy(n)
            del m.keywords[i]
            out.append(m)
        if len(n.args) == 1:
            out.append(copy.deepcopy(n.args[0]))
        if isinstance(n.func, ast.Attribute) and not n.args:
            out.append(copy.deepcopy(n.func.value))
        for i in range(len(n.args) - 1):
            m = copy.deepcopy(n)
            m.args[i], m.args[i + 1] = m.args[i + 1], m.args[i]
            out.append(m)
    if isinstance(n, ast.Slice):
        for k in ('lower', 'upper', 'step'):
            if getattr(n, k) is not None:
                m = copy.deepcopy(n)
                setattr(m, k, None)
                out.append(m)
    if isinstance(n, (ast.Assign, ast.AugAssign, ast.Raise, ast.Delete)) or isinstance(n, ast.Expr) and not isinstance(n.value, ast.Constant):
        out.append(ast.Pass())
    if isinstance(n, ast.Return) and n.value is not None:
        out.append(ast.Return(ast.Constant(None)))
    if isinstance(n, ast.Attribute) and n.attr == 'T':
        out.append(copy.deepcopy(n.value))
    return out


def mutants(path):
    src = open(path).read()
    tree = ast.parse(src)
    nodes = list(ast.walk(tree))
    skip = set()
    for n in nodes:
        if isinstance(n, (ast.Import, ast.ImportFrom)) or isinstance(n, ast.Expr) and isinstance(n.value, ast.Constant):
            skip |= set(map(id, ast.walk(n)))
        if isinstance(n, ast.FunctionDef) and n.name == 'main' or isinstance(n, ast.If) and ast.unparse(n.test).startswith('__name__'):
            skip |= set(map(id, ast.walk(n)))
        if isinstance(n, ast.FunctionDef):
            for d in n.decorator_list:
                skip |= set(map(id, ast.walk(d)))
        if isinstance(n, ast.Raise):
            skip |= set(map(id, ast.walk(n))) - {id(n)}
    for k, n in enumerate(nodes):
        if id(n) in skip:
            continue
        for j, v in enumerate(variants(n)):
            t = copy.deepcopy(tree)
            old = list(ast.walk(t))[k]
            for p in ast.walk(t):
                for f, val in ast.iter_fields(p):
                    if val is old:
                        setattr(p, f, v)
                    elif isinstance(val, list) and any(x is old for x in val):
                        val[[x is old for x in val].index(True)] = v
            ast.fix_missing_locations(t)
            try:
                new = ast.unparse(t)
                compile(new, path, 'exec')
            except Exception:
                continue
            yield '%d: %s  =>  %s' % (n.lineno if hasattr(n, 'lineno') else 0, ast.unparse(n).split('\n')[0][:90], ast.unparse(v).split('\n')[0][:90]), new


def main():
    p = argparse.ArgumentParser()
    p.add_argument('out')
    p.add_argument('--procs', type=int, default=4)
    p.add_argument('--files', default='')
    p.add_argument('--limit', type=int, default=10**9)
    p.add_argument('--seed', type=int, default=0)
    p.add_argument('--skip', default='C24,C28')
    p.add_argument('--count', action='store_true')
    o = p.parse_args()
    props = {}
    for l in open(HERE + '/properties.jsonl'):
        d = json.loads(l)
        for f in d['anchors']['files']:
            props.setdefault(f, []).append(d['id'])
    todo = []
    for f in sorted(props):
        if f.endswith('.py') and (not o.files or any(f.endswith(x) for x in o.files.split(','))):
            ms = list(mutants('/repo/' + f))
            print(f, len(ms), props[f])
            todo += [(f, d, s) for d, s in ms]
    random.Random(o.seed).shuffle(todo)
    todo = todo[:o.limit]
    print(len(todo), 'mutants')
    if o.count:
        return
    base = sorted(stable())
    slots = Queue()
    root = '/tmp/mut/%d' % os.getpid()
    for k in range(o.procs):
        os.makedirs('%s/%d' % (root, k))
        subprocess.check_call(['cp', '-a', '/repo', '%s/%d/repo' % (root, k)])
        subprocess.check_call(['cp', '-a', HERE, '%s/%d/verif' % (root, k)])
        slots.put(k)
    log = open(o.out, 'a')
    tally = {}

    def one(item):
        f, desc, src = item
        k = slots.get()
        repo, ver = '%s/%d/repo' % (root, k), '%s/%d/verif' % (root, k)
        try:
            open('%s/%s' % (repo, f), 'w').write(src)
            env = dict(os.environ, PYTHONPATH=repo, PYTHONDONTWRITEBYTECODE='1', OPENBLAS_NUM_THREADS='1')
            try:
                r = subprocess.run(['/opt/venv/bin/python', '-m', 'pytest', '-q', '-x', '-p', 'no:cacheprovider'] + base, cwd=repo, env=env, stdout=subprocess.DEVNULL, stderr=subprocess.DEVNULL, timeout=60)
                if r.returncode:
                    return 'tests', item
            except subprocess.TimeoutExpired:
                return 'tests', item
            e = dict(os.environ, VMON_REPO=repo, VERIF_TIER='quick', VMON_WORKERS='2')
            for q in [x for x in props[f] if x not in o.skip.split(',')]:
                try:
                    r = subprocess.run([ver + '/bin/check', q], cwd=ver, env=e, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, timeout=400)
                except subprocess.TimeoutExpired:
                    return 'timeout ' + q, item
                if r.returncode == 1 and b'VIOLATION property=' in r.stdout:
                    return q, item
                if r.returncode not in (0, 1):
                    return 'rc%d %s' % (r.returncode, q), item
            return 'SURVIVED', item
        finally:
            subprocess.call(['git', 'checkout', '-q', '--', f], cwd=repo)
            slots.put(k)

    with ThreadPoolExecutor(o.procs) as ex:
        for n, (res, (f, desc, _)) in enumerate(ex.map(one, todo)):
            key = 'tests' if res == 'tests' else 'caught' if re.match(r'C\d\d$', res) else res.split()[0]
            tally[key] = tally.get(key, 0) + 1
            if key not in ('tests', 'caught'):
                log.write('%s %s:%s\n' % (res, f, desc))
                log.flush()
            if n % 50 == 49:
                print(n + 1, tally)
                sys.stdout.flush()
    log.write('# %s\n' % tally)
    print(tally)
    shutil.rmtree(root)


if __name__ == '__main__':
    main()
