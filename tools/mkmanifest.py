#!/usr/bin/env python3
"""Regenerates MANIFEST.json: every property with a check module is claimed, the rest is not_applicable (with a reason)."""
import json, os
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
T = json.load(open(V + '/tools/techniques.json'))
checks, na = [], []
for line in open(V + '/properties.jsonl'):
    p = json.loads(line)['id']
    if os.path.exists('%s/checks/%s.py' % (V, p.lower())):
        t = T.get(p, {})
        checks.append({'property': p, 'quick_cmd': './run.py %s --tier quick' % p, 'thorough_cmd': './run.py %s --tier thorough' % p,
                       'technique': t.get('technique', 'property-based testing (Hypothesis) against an independent reference model'),
                       'level': 'exploration', 'level_note': t.get('note', 'generated-input search; see DESIGN.md for domains and oracles')})
    else:
        na.append({'property': p, 'reason': T.get(p, {}).get('na', 'check not built yet')})
json.dump({'version': 1, 'setup_cmd': './setup.sh', 'checks': checks, 'not_applicable': na}, open(V + '/MANIFEST.json', 'w'), indent=1)
print(len(checks), 'claimed', len(na), 'not')
