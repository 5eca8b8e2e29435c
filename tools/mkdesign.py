#!/usr/bin/env python3
"""DESIGN.in.md + props.py + seeded/ + KNOWN_FINDINGS -> DESIGN.md (development tool)."""
import json, os, sys
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, V)
import props
t = open(os.path.join(V, 'DESIGN.in.md')).read()
s = '## Properties\n'
for p in props.PROPS:
    s += '\n### %s %s\n\n' % (p['id'], p['title'])
    if p.get('na'):
        s += 'Not applicable: %s\n' % p['na']
        continue
    d = props.DESIGN.get(p['id'], '')
    s += 'Decided by %s. ' % p['technique'].split(': ', 1)[1]
    s += 'Observed at: %s. Bounds: %s, sampled. ' % ('; '.join(p['anchors']['observe_at']), p['quantifier']['text'])
    s += 'Beyond the tests: %s %s\n' % (p['why_tests_cant'], d)
t = t.replace('PROPERTIES_TABLE', s)
open_ = [json.loads(l) for l in open(os.path.join(V, 'KNOWN_FINDINGS.jsonl')) if l.strip()]
f = '\n'.join('* %s' % e['entry'] if e['status'] == 'fixed' else '* OPEN %s property=%s: %s' % (e['id'], e['property'], e['what']) for e in open_)
t = t.replace('FINDINGS_TABLE', f)
rows = ['| bug | property | needs | caught |', '|---|---|---|---|']
res = json.load(open(os.path.join(V, 'tools', 'seedresults.json'))) if os.path.exists(os.path.join(V, 'tools', 'seedresults.json')) else {}
for i in sorted(os.listdir(os.path.join(V, 'seeded'))):
    m = json.load(open(os.path.join(V, 'seeded', i, 'meta.json')))
    rows.append('| %s | %s | %s | %s |' % (i, m['property'], m['needs'], res.get(i, '?')))
t = t.replace('SEEDS_TABLE', '\n'.join(rows))
open(os.path.join(V, 'DESIGN.md'), 'w').write(t)
