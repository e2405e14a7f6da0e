#!/usr/bin/env python3
"""Writes MANIFEST.json: one check per rule module, not_applicable for the rest."""
import json, os
V = os.path.dirname(os.path.abspath(__file__))
props = [json.loads(l) for l in open(os.path.join(V, 'properties.jsonl'))]
CH = json.load(open(os.path.join(V, 'checks.json')))
checks, na = [], []
for p in props:
    i = p['id']
    if i in CH['checks'] and os.path.exists(os.path.join(V, 'sa/rules/%s.py' % i.lower())):
        t, note = CH['checks'][i]
        checks.append(dict(property=i, quick_cmd='VERIF_TIER=quick python3 check.py ' + i, thorough_cmd='VERIF_TIER=thorough python3 check.py ' + i,
                           evidence_file='evidence/%s.json' % i, technique='static analysis: ' + t, level='other', level_note=note))
    else: na.append(dict(property=i, reason=CH['not_applicable'].get(i, 'no check built yet')))
json.dump(dict(version=1, setup_cmd='./build.sh', checks=checks, not_applicable=na), open(os.path.join(V, 'MANIFEST.json'), 'w'), indent=1)
