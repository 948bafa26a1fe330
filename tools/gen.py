#!/usr/bin/env python3
"""Writes properties.jsonl and MANIFEST.json from tools/props.py."""
import json, os, sys
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, os.path.join(V, 'tools'))
sys.path.insert(0, V)
from props import PROPS
from plan import PLAN
with open(os.path.join(V, 'properties.jsonl'), 'w') as f:
    for p in PROPS:
        assert len(p['title']) <= 80, (p['id'], len(p['title']))
        d = {k: p[k] for k in ('id', 'title', 'statement', 'quantifier', 'why_tests_cant', 'anchors')}
        f.write(json.dumps(d) + '\n')
checks, na = [], []
for p in PROPS:
    if p.get('na') or p['id'] not in PLAN:
        na.append(dict(property=p['id'], reason=p.get('na', 'its check is not built yet')))
        continue
    checks.append(dict(property=p['id'], quick_cmd='python3 vf.py check ' + p['id'], thorough_cmd='python3 vf.py check ' + p['id'] + ' --tier thorough',
                       technique=p['technique'], level='exploration', level_note=p['level_note']))
m = dict(version=1, setup_cmd='python3 vf.py setup', checks=checks, not_applicable=na,
         notes='No hooks are needed in /repo: the monitors observe the library through its public interface, the allocator and the system-call functions, which the harness replaces at link time.')
with open(os.path.join(V, 'MANIFEST.json'), 'w') as f:
    json.dump(m, f, indent=1)
    f.write('\n')
