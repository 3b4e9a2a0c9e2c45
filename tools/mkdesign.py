"""mkdesign.py: DESIGN.md = intro + one section per property (from its check's docstrings) + findings + tail + catches.tsv."""
import ast
import json
import os

H = os.path.join(os.path.dirname(os.path.abspath(__file__)), '..')
rd = lambda p: open(os.path.join(H, p)).read()
out = [rd('tools/design_intro.md').rstrip(), '', '## The properties', '',
       'Cases are per quick run (thorough: about ten times, new cases). No input is enumerated: bounds are those of the generators named.', '']
man = dict((c['property'], c) for c in json.loads(rd('MANIFEST.json'))['checks'])
for line in rd('properties.jsonl').splitlines():
    p = json.loads(line)
    i = p['id']
    tree = ast.parse(rd('vmon/props/%s.py' % i.lower()))
    out += ['### %s %s' % (i, p['title']), '', 'Technique: %s.' % man[i]['technique'], '', ast.get_docstring(tree), '']
    ws = []
    for f in tree.body:
        if isinstance(f, ast.FunctionDef):
            for d in f.decorator_list:
                if isinstance(d, ast.Call) and getattr(d.func, 'id', '') == 'workload':
                    q = [ast.unparse(k.value) for k in d.keywords if k.arg == 'quick']
                    doc = ast.get_docstring(f)
                    ws.append('`%s` (%s)%s' % (f.name, (8 * int(q[0]) if q[0].isdigit() else '8 x ' + q[0]) if q else '?', ': ' + ' '.join(doc.split()).rstrip('.') if doc else ''))
    out += ['Workloads: ' + '; '.join(ws) + '.', '']
fixed = [l[len('fixed: '):] for l in rd('known_findings.txt').splitlines() if l.startswith('fixed: ')]
out += ['## Defects found and repaired (%d `fix:` commits; none open)' % len(fixed), ''] + ['- ' + f.replace('property=', '') for f in fixed] + ['']
out += [rd('tools/design_tail.md').rstrip(), '']
c = [l.split('\t') for l in rd('catches.tsv').splitlines()]
got = [x for x in c if x[1] == 'caught']
out += ['## Which check reports which planted bug', '', '%d of %d are reported by the quick check of their own property (seed 1).' % (len(got), len(c)), '',
        '| bug | needs | result | first report |', '|---|---|---|---|']
for i, r, msg in c:
    needs = json.loads(rd('seeded/%s/meta.json' % i))['needs']
    out.append('| %s | %s | %s | %s |' % (i, needs.replace('|', '/'), r, msg.replace('|', '/')[:100]))
open(os.path.join(H, 'DESIGN.md'), 'w').write('\n'.join(out) + '\n')
