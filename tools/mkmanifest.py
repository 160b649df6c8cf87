#!/usr/bin/env python3
"""writes MANIFEST.json from the check modules that exist"""
import json
import os
import sys
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
props = [json.loads(x) for x in open(os.path.join(V, 'properties.jsonl'))]
GEN = ('Exhaustive within the stated bounds (see evidence coverage.bound): every enumerated input or operation history '
       'is executed on the real code of /repo and compared with the result the independent model gives. '
       'Nothing is claimed beyond the bounds; trusts music21, CPython, and the model in /verif/lib. ')
NOTES = json.load(open(os.path.join(V, 'tools', 'notes.json')))
checks, na = [], []
for p in props:
    i = p['id']
    if os.path.exists(os.path.join(V, 'checks', i.lower() + '.py')):
        n = NOTES.get(i, {})
        checks.append({'property': i, 'quick_cmd': f'./check.sh {i} quick', 'thorough_cmd': f'./check.sh {i} thorough',
                       'technique': n.get('technique', 'explicit-state enumeration of model scores, every model trace '
                                          'replayed on the real importers/exporters'),
                       'level': 'model_checking', 'level_note': GEN + n.get('note', '')})
    else:
        na.append({'property': i, 'reason': NOTES.get(i, {}).get('na', 'check not built yet')})
json.dump({'version': 1, 'setup_cmd': './setup.sh', 'checks': checks, 'not_applicable': na,
           'notes': 'No hooks in /repo. The fix: commits in /repo are listed in known_findings.json.'},
          open(os.path.join(V, 'MANIFEST.json'), 'w'), indent=1)
print(len(checks), 'checks', len(na), 'not claimed')
