#!/usr/bin/env python3
"""Writes MANIFEST.json: every property with harness files is claimed."""
import json, glob, os, re
here = os.path.dirname(os.path.abspath(__file__))
props = [json.loads(l) for l in open(os.path.join(here, 'properties.jsonl'))]
NA = {}
NOTE = json.load(open(os.path.join(here, 'level_notes.json')))
checks, na = [], []
for p in props:
    i = p['id']
    files = glob.glob(os.path.join(here, 'harness', '**', i.lower() + '_*.go'), recursive=True)
    if not files or i in NA:
        na.append({'property': i, 'reason': NA.get(i, 'not built yet: the harness for this property is still to be written')})
        continue
    checks.append({
        'property': i,
        'quick_cmd': 'VERIF_TIER=quick bash check.sh ' + i,
        'thorough_cmd': 'VERIF_TIER=thorough bash check.sh ' + i,
        'technique': 'symbolic execution of the Go SSA of the real code, decided by SMT (z3)',
        'level': 'model_checking',
        'level_note': NOTE.get(i, NOTE['default']),
    })
m = {'version': 1, 'setup_cmd': 'bash setup.sh', 'checks': checks, 'not_applicable': na,
     'notes': 'No hooks in /repo: harnesses enter through a build overlay. See DESIGN.md.'}
json.dump(m, open(os.path.join(here, 'MANIFEST.json'), 'w'), indent=1)
print(len(checks), 'claimed,', len(na), 'not')
