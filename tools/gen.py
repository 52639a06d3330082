#!/usr/bin/env python3
"""writes properties.jsonl and MANIFEST.json from tools/props.py"""
import json
import os
import sys
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, os.path.join(V, 'tools'))
from props import PROPS, NOT_APPLICABLE, NOTES

with open(V + '/properties.jsonl', 'w') as f:
    for p in PROPS:
        f.write(json.dumps(dict(
            id=p['id'], title=p['title'], statement=p['statement'],
            quantifier=dict(over=p.get('over', ['inputs']), text=p['quant']),
            why_tests_cant=p['why'],
            anchors=dict(files=p['files'], mechanism=[dict(name=n, where=w) for n, w in p['mech']],
                         observe_at=p.get('observe', []), hook_needed=None)), ensure_ascii=False) + '\n')
checks = []
for p in PROPS:
    if not os.path.exists('%s/harness/%s.py' % (V, p['id'])):
        assert p['id'] in {n['property'] for n in NOT_APPLICABLE}, p['id']
        continue
    checks.append(dict(
        property=p['id'], quick_cmd='python3 check.py %s --tier quick' % p['id'],
        thorough_cmd='python3 check.py %s --tier thorough' % p['id'],
        evidence_file='evidence/%s.json' % p['id'],
        technique=p.get('technique', 'symbolic execution of the real Python code with z3; counterexamples replayed on the real code'),
        level='model_checking', level_note=p['note']))
json.dump(dict(version=1, setup_cmd='bash setup.sh', checks=checks, not_applicable=NOT_APPLICABLE, notes=NOTES),
          open(V + '/MANIFEST.json', 'w'), indent=1, ensure_ascii=False)
print(len(PROPS), 'properties', len(checks), 'checks')


def section(text, name, body):
    a, b = '<!-- %s -->' % name, '<!-- /%s -->' % name
    i, j = text.index(a) + len(a), text.index(b)
    return text[:i] + '\n' + body + '\n' + text[j:]


import ast
d = open(V + '/DESIGN.md').read()
out = []
for p in sorted(PROPS, key=lambda p: p['id']):
    h = '%s/harness/%s.py' % (V, p['id'])
    if not os.path.exists(h):
        continue
    m = next(ast.literal_eval(n.value) for n in ast.parse(open(h).read()).body if isinstance(n, ast.Assign) and n.targets[0].id == 'META')
    out.append('* **%s** %s\n  bounds: %s.\n  outside: %s.' % (p['id'], p['title'], '; '.join(m['bounds']), '; '.join(m['outside'])))
d = section(d, 'BOUNDS', '\n'.join(out))
fixed = [l.split(' ', 3) for l in open(V + '/known_findings.txt') if l.startswith('fixed:')]
d = section(d, 'FIXED', '\n'.join('* %s (%s): %s' % (a.split('=')[1], c, w.strip()) for _, a, c, w in fixed))
rows = ['| change | property | breaks | needs | found by |', '|---|---|---|---|---|']
caught = json.load(open(V + '/tools/caught.json'))
if os.path.isdir(V + '/seeded'):
    for n in sorted(os.listdir(V + '/seeded')):
        m = json.load(open('%s/seeded/%s/meta.json' % (V, n)))
        rows.append('| %s | %s | %s | %s | %s |' % (n, m['property'], m['what_it_breaks'], m['needs'], caught.get(n, 'not run')))
    d = section(d, 'SEEDED', '\n'.join(rows))
open(V + '/DESIGN.md', 'w').write(d)
