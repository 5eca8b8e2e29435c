#!/usr/bin/env python3
"""Regenerates properties.jsonl and MANIFEST.json from props.py."""
import json
import os
import props
here = os.path.dirname(os.path.abspath(__file__))
with open(os.path.join(here, 'properties.jsonl'), 'w') as f:
    for p in props.PROPS:
        d = {k: p[k] for k in ('id', 'title', 'statement', 'quantifier', 'why_tests_cant', 'anchors')}
        assert len(d['title']) <= 80, d['title']
        f.write(json.dumps(d) + '\n')
checks = []
for p in props.PROPS:
    if p.get('na'):
        continue
    checks.append(dict(property=p['id'],
                       quick_cmd='python3 run.py %s --tier quick' % p['id'],
                       thorough_cmd='python3 run.py %s --tier thorough' % p['id'],
                       evidence_file='evidence/%s.json' % p['id'],
                       technique=p['technique'], level='exploration',
                       level_note=p['level_note']))
json.dump(dict(version=1, setup_cmd='true',
               checks=checks,
               not_applicable=[dict(property=p['id'], reason=p['na']) for p in props.PROPS if p.get('na')],
               notes=props.NOTES),
          open(os.path.join(here, 'MANIFEST.json'), 'w'), indent=1)
