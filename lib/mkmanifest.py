#!/usr/bin/env python3
"""Writes /verif/MANIFEST.json from lib/config.py and properties.jsonl."""
import json, os, sys
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
from config import PROPS, NOT_APPLICABLE
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
ids = [json.loads(l)['id'] for l in open(os.path.join(V, 'properties.jsonl'))]
checks, na = [], []
for i in ids:
    if i in PROPS:
        c = PROPS[i]
        checks.append({'property': i, 'quick_cmd': 'python3 lib/check.py %s' % i,
                       'thorough_cmd': 'python3 lib/check.py %s --tier thorough' % i,
                       'technique': c['technique'], 'level': 'exploration', 'level_note': c['note']})
    else:
        na.append({'property': i, 'reason': NOT_APPLICABLE.get(i, 'no check built yet')})
json.dump({'version': 1, 'setup_cmd': 'python3 lib/build.py', 'checks': checks, 'not_applicable': na,
           'notes': 'No hooks are needed: the checks compile the sources of /repo\'s working tree with harnesses of their own. '
                    'All commits in /repo are repairs ("fix:"), see known_findings.json.'},
          open(os.path.join(V, 'MANIFEST.json'), 'w'), indent=1)
print(len(checks), 'checks,', len(na), 'not claimed')
