#!/usr/bin/env python3
"""writes MANIFEST.json from the table of check.py"""
import json
import check
N = dict(check.NOTES)
props = [json.loads(l)['id'] for l in open('properties.jsonl')]
m = {'version': 1, 'setup_cmd': 'python3 -m py_compile check.py dv/*.py replay/*.py', 'checks': [], 'not_applicable': []}
for p in props:
    if p in check.PROPS:
        m['checks'].append({'property': p, 'quick_cmd': 'python3 check.py %s quick' % p, 'thorough_cmd': 'python3 check.py %s thorough' % p,
                            'technique': check.TECH.get(p, check.TECH['']), 'level': check.LEVEL.get(p, 'proof'), 'level_note': check.NOTES[p]})
    else:
        m['not_applicable'].append({'property': p, 'reason': check.NA[p]})
json.dump(m, open('MANIFEST.json', 'w'), indent=1)
