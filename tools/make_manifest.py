#!/usr/bin/env python3
"""Writes MANIFEST.json from the plan and the property list."""
import json, os, sys
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, HERE + '/tools')
from plan import PLAN
from notes import NOTES, NOT_APPLICABLE, HOOKS

props = [json.loads(l) for l in open(HERE + '/properties.jsonl')]
m = {
    'version': 1,
    'setup_cmd': 'python3 tools/check.py --build-only',
    'checks': [],
    'not_applicable': [],
    'notes': 'Every check runs the real library under engine/ (controlled scheduler, virtual time) and enumerates all schedules and data choices within the bounds of tools/plan.py. See DESIGN.md.',
}
if HOOKS:
    m['hooks'] = HOOKS
for p in props:
    i = p['id']
    if i in PLAN and i not in NOT_APPLICABLE:
        t, n = NOTES.get(i, ('stateless model checking of the real code', ''))
        m['checks'].append({
            'property': i,
            'quick_cmd': 'python3 tools/check.py %s quick' % i,
            'thorough_cmd': 'python3 tools/check.py %s thorough' % i,
            'evidence_file': 'evidence/%s.json' % i,
            'technique': t,
            'level': 'model_checking',
            'level_note': n or 'Exhaustive within the delay bounds and history depths of tools/plan.py over the listed scenarios of the real code; assumes sequential consistency; trusts the engine.',
        })
    else:
        m['not_applicable'].append({'property': i, 'reason': NOT_APPLICABLE.get(i, 'check not built yet')})
json.dump(m, open(HERE + '/MANIFEST.json', 'w'), indent=1)
open(HERE + '/MANIFEST.json', 'a').write('\n')
