#!/usr/bin/env python3
"""Writes MANIFEST.json from properties.jsonl and checks_config.py."""
import json, os, sys
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__))); sys.path.insert(0, V)
from checks_config import PLAN, NOTES, NA
props = [json.loads(l) for l in open(os.path.join(V, 'properties.jsonl'))]
checks = []
for p in props:
    if p['id'] in PLAN:
        checks.append(dict(property=p['id'], quick_cmd='python3 check.py %s --tier quick' % p['id'], thorough_cmd='python3 check.py %s --tier thorough' % p['id'], evidence_file='evidence/%s.json' % p['id'],
            technique='deterministic simulation with fault injection: seeded search over schedules, faults and workloads', level='exploration', level_note=NOTES[p['id']]))
m = dict(version=1, setup_cmd='python3 check.py C01 --build-only', checks=checks, not_applicable=[dict(property=k, reason=v) for k, v in NA.items()],
    notes='No hooks in /repo: seams are taken by link-time wrapping of libc/pthread calls and by compiler-inserted access hooks (see DESIGN.md).')
assert set(p['id'] for p in props) == set(PLAN) | set(NA), (set(p['id'] for p in props) ^ (set(PLAN) | set(NA)))
json.dump(m, open(os.path.join(V, 'MANIFEST.json'), 'w'), indent=1); open(os.path.join(V, 'MANIFEST.json'), 'a').write('\n')
