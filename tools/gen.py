#!/usr/bin/env python3
"""Writes properties.jsonl and MANIFEST.json from tools/props.py and checks.py."""
import json, os, sys
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path[:0] = [V, V + '/tools']
import props, checks
from props import PROPS, NA
with open(V + '/properties.jsonl', 'w') as f:
    for p in PROPS:
        f.write(json.dumps({'id': p['id'], 'title': p['title'], 'statement': p['statement'],
                            'quantifier': {'over': p['over'], 'text': p['q']}, 'why_tests_cant': p['why'],
                            'anchors': {'files': sorted({m[1].split(':')[0] for m in p['mech']}),
                                        'mechanism': [{'name': a, 'where': b} for a, b in p['mech']],
                                        'observe_at': p.get('obs', []), 'hook_needed': None}}) + '\n')
        assert len(p['title']) <= 80, p['id']
TECH = 'symbolic execution of the compiled LLVM bitcode of /repo (engine/), every branch, assertion and memory access decided by z3; counterexamples replayed natively'
ck = []
for p in PROPS:
    if p['id'] in checks.CHECKS:
        c = checks.CHECKS[p['id']]
        ck.append({'property': p['id'], 'quick_cmd': f"python3 run.py check {p['id']} quick",
                   'thorough_cmd': f"python3 run.py check {p['id']} thorough", 'technique': TECH,
                   'level': c.get('level', 'model_checking'),
                   'level_note': 'exhaustive within: ' + ' | '.join(dict.fromkeys(r['bounds'] for r in c['runs']))})
    else:
        assert p['id'] in NA, p['id']
assert set(checks.CHECKS) <= {p['id'] for p in PROPS}, set(checks.CHECKS) - {p['id'] for p in PROPS}
json.dump({'version': 1, 'setup_cmd': 'python3 run.py setup', 'checks': ck,
           'not_applicable': [{'property': k, 'reason': v} for k, v in NA.items() if k not in checks.CHECKS]},
          open(V + '/MANIFEST.json', 'w'), indent=1)
print(len(PROPS), 'properties', len(ck), 'checks')
