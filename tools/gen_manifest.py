#!/usr/bin/env python3
"""Writes MANIFEST.json from sim/plan.py and the list of properties that are not claimed."""
import json
import os
import sys
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, HERE)
from sim import plan  # noqa: E402

props = [json.loads(x) for x in open(os.path.join(HERE, 'properties.jsonl'))]
NA = plan.NOT_APPLICABLE
checks = []
na = []
for p in props:
    i = p['id']
    if i in plan.PLAN:
        fams = sorted({f for f, _, _ in plan.PLAN[i]})
        checks.append({
            'property': i,
            'quick_cmd': '/opt/venv/bin/python -B check.py %s --tier quick' % i,
            'thorough_cmd': '/opt/venv/bin/python -B check.py %s --tier thorough' % i,
            'evidence_file': 'evidence/%s.json' % i,
            'technique': 'deterministic simulation with fault injection: ' + '; '.join(
                plan.TECHNIQUE[f] for f in fams),
            'level': 'exploration',
            'level_note': 'seeded sampling of scenarios, schedules and faults; '
                          'profiles ' + ', '.join('%s/%s' % (f, q) for f, q, _ in plan.PLAN[i]),
        })
    else:
        na.append({'property': i, 'reason': NA.get(
            i, 'no check yet: its simulation is being built')})
m = {'version': 1, 'setup_cmd': 'mkdir -p evidence replays && /opt/venv/bin/python -B check.py --setup',
     'checks': checks, 'not_applicable': na,
     'notes': 'No hooks were added to /repo: every seam is an import-time substitution of the '
              'standard library (see DESIGN.md). Known and fixed defects: known_findings.json.'}
with open(os.path.join(HERE, 'MANIFEST.json'), 'w') as f:
    json.dump(m, f, indent=1)
    f.write('\n')
