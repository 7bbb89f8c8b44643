#!/usr/bin/env python3
"""Writes MANIFEST.json from the list of properties and the registered checks."""
import json, os, sys
HERE = os.path.dirname(os.path.abspath(__file__)); sys.path.insert(0, os.path.join(HERE, 'lib'))
import checks as C
NA = {}
props = [json.loads(l) for l in open(os.path.join(HERE, 'properties.jsonl'))]
out = {'version': 1, 'setup_cmd': 'python3 run.py setup', 'checks': [], 'not_applicable': []}
if getattr(C, 'HOOKS', None): out['hooks'] = C.HOOKS
for p in props:
    i = p['id']
    if i in C.CHECKS:
        c = C.CHECKS[i]
        out['checks'].append({'property': i, 'quick_cmd': 'python3 run.py %s quick' % i, 'thorough_cmd': 'python3 run.py %s thorough' % i,
                              'technique': c['technique'], 'level': c['level'], 'level_note': c['note']})
    else: out['not_applicable'].append({'property': i, 'reason': NA.get(i, 'machinery not built yet')})
json.dump(out, open(os.path.join(HERE, 'MANIFEST.json'), 'w'), indent=1)
print(len(out['checks']), 'checks;', [x['property'] for x in out['not_applicable']])
