#!/usr/bin/env python3
"""Writes MANIFEST.json from units.py and the table below."""
import json, sys, os
H = os.path.dirname(os.path.dirname(os.path.abspath(__file__))); sys.path.insert(0, H)
from units import UNITS
from notes import NOTES, NOT_YET
props = [json.loads(l) for l in open(os.path.join(H, 'properties.jsonl'))]
m = dict(version=1, setup_cmd='python3 run.py --list', checks=[], not_applicable=[],
         notes='No hooks are needed in /repo: the headers are compiled into harnesses as they are. known_findings.txt lists repaired defects.')
for p in props:
    i = p['id']
    if i in UNITS:
        t, n = NOTES[i]
        m['checks'].append(dict(property=i, quick_cmd='python3 run.py %s quick' % i, thorough_cmd='python3 run.py %s thorough' % i, technique=t, level='model_checking', level_note=n))
    else:
        m['not_applicable'].append(dict(property=i, reason=NOT_YET.get(i, 'check not built yet')))
json.dump(m, open(os.path.join(H, 'MANIFEST.json'), 'w'), indent=1)
