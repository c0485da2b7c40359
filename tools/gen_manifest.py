#!/usr/bin/env python3
"""Writes MANIFEST.json from the table in checks.py and properties.jsonl."""
import os, sys, json
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, V)
import checks
props = [json.loads(l) for l in open(os.path.join(V, 'properties.jsonl'))]
ch, na = [], []
for p in props:
    i = p['id']
    s = checks.SPEC.get(i)
    if not s:
        na.append(dict(property=i, reason='not built yet'))
        continue
    ch.append(dict(property=i, quick_cmd='VERIF_TIER=quick python3 run.py ' + i,
        thorough_cmd='VERIF_TIER=thorough python3 run.py ' + i,
        evidence_file='evidence/%s.json' % i,
        technique=s['technique'], level=s.get('level', 'exploration'), level_note=s['note']))
m = dict(version=1, setup_cmd='python3 run.py --setup', checks=ch, not_applicable=na)
json.dump(m, open(os.path.join(V, 'MANIFEST.json'), 'w'), indent=1)
print(len(ch), 'checks,', len(na), 'not claimed')
