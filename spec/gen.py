#!/usr/bin/env python3
"""write properties.jsonl and MANIFEST.json from spec/props.py"""
import json, os, sys
here = os.path.dirname(os.path.abspath(__file__))
root = os.path.dirname(here)
sys.path.insert(0, here)
import props
nas = dict(props.NA)
with open(os.path.join(root, 'properties.jsonl'), 'w') as f:
    for p in props.PROPS:
        assert len(p['title']) <= 80, p['title']
        a = dict(files=p['files'], mechanism=[dict(name=n, where=w) for n, w in p['mech']])
        f.write(json.dumps(dict(id=p['id'], title=p['title'], statement=p['statement'],
                                quantifier=dict(over=p['over'], text=p['qtext']), why_tests_cant=p['why'], anchors=a)) + '\n')
checks = []
for p in props.PROPS:
    if p['id'] in nas:
        continue
    assert os.path.exists(os.path.join(root, 'checks', p['id'].lower() + '.py')), p['id']
    checks.append(dict(property=p['id'], quick_cmd='python3 engine/run.py %s quick' % p['id'],
                       thorough_cmd='python3 engine/run.py %s thorough' % p['id'], technique=p['technique'], level='other',
                       level_note=p['note'] or 'static analysis: the rule is decided on all paths of the normalised IR of the current tree; sound relative to the assumptions listed in the evidence file'))
m = dict(version=1, setup_cmd='python3 engine/build.py hi lo own rpc db all ser text math data sock http typed sstream digest csv', checks=checks,
         not_applicable=[dict(property=i, reason=r) for i, r in props.NA])
with open(os.path.join(root, 'MANIFEST.json'), 'w') as f:
    json.dump(m, f, indent=1)
    f.write('\n')
print(len(props.PROPS), 'properties', len(checks), 'checks', len(props.NA), 'not applicable')

# --- DESIGN.md
sys.path[:0] = [os.path.join(root, 'engine'), os.path.join(root, 'checks')]
import importlib, re
d = open(os.path.join(here, 'design_head.md')).read()
for p in sorted(props.PROPS, key=lambda p: p['id']):
    d += '\n### %s: %s\n\n' % (p['id'], p['title'])
    if p['id'] in nas:
        d += 'Not applicable: %s\n' % nas[p['id']]
        continue
    m = importlib.import_module(p['id'].lower())
    d += 'Anchors: %s. Quantified over %s.\n\n' % (', '.join('`%s`' % f for f in p['files']), p['qtext'])
    d += 'Decided by %s. %s\n\n' % (p['technique'], ' '.join(getattr(m, 'RULE', '').split()))
    a = getattr(m, 'ASSUME', [])
    if a:
        d += 'Assumptions: %s.\n\n' % '; '.join(a)
    d += 'Beyond the tests because %s.\n' % p['why']
for i, r in props.NA:
    if i not in [p['id'] for p in props.PROPS]:
        d += '\n### %s\n\nNot applicable: %s\n' % (i, r)
d += open(os.path.join(here, 'design_tail.md')).read()
d += '\n| planted change | property | needs | caught by |\n|---|---|---|---|\n'
miss = set(props.MISSED)
sd = os.path.join(root, 'seeded')
for s in sorted(os.listdir(sd)) if os.path.isdir(sd) else []:
    j = json.load(open(os.path.join(sd, s, 'meta.json')))
    d += '| %s | %s | %s | %s |\n' % (s, j['property'], j['needs'].replace('|', '/'), 'missed' if s in miss else j['property'])
kf = [l.strip() for l in open(os.path.join(root, 'known_findings.txt')) if l.strip() and not l.startswith('#')]
d += '\n## Defects of pficommon found by the checks\n\n'
for l in kf:
    d += '* %s\n' % l
with open(os.path.join(root, 'DESIGN.md'), 'w') as f:
    f.write(d)
