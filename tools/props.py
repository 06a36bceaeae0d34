#!/usr/bin/env python3
"""Writes properties.jsonl and MANIFEST.json from the table in tools/proptable.py."""
import json, os, sys
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, os.path.join(V, 'tools'))
from proptable import PROPS, NA, NOTES
TECH = 'contract-based deductive verification: pre/postconditions and invariants over the compiled code (MIR) of every function between entry point and storage; verification conditions generated on every run and discharged by z3'
NOTE = ('Every obligation is generated from /repo\'s current MIR and discharged for all pre-states, messages, senders, blocks and query answers (no input bound). '
        'Trusted: rustc MIR, the generator, z3, and the contracts assumed on cosmwasm-std/cw-storage-plus/std (listed in evidence); ')
with open(os.path.join(V, 'properties.jsonl'), 'w') as f:
    for p in PROPS:
        q = {k: p[k] for k in ('id', 'title', 'statement', 'quantifier', 'why_tests_cant', 'anchors')}
        assert len(q['title']) <= 80, q['title']
        f.write(json.dumps(q) + '\n')
checks = []
na = [{'property': k, 'reason': v} for k, v in NA.items()]
for p in PROPS:
    if p['id'] in NA: continue
    checks.append({'property': p['id'], 'quick_cmd': f'bash check.sh {p["id"]} --tier quick', 'thorough_cmd': f'bash check.sh {p["id"]} --tier thorough',
                   'technique': TECH, 'level': 'proof', 'level_note': NOTE + p.get('note', 'see DESIGN.md.')})
m = {'version': 1, 'setup_cmd': 'bash tools/build.sh', 'checks': checks, 'not_applicable': na, 'notes': NOTES}
json.dump(m, open(os.path.join(V, 'MANIFEST.json'), 'w'), indent=1)
print(len(checks), 'checks', len(na), 'not applicable')
