#!/usr/bin/env python3
"""MANIFEST.json from harness/checks.py and properties.jsonl"""
import json, os, sys
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, os.path.join(V, 'harness'))
from checks import CHECKS
props = [json.loads(l) for l in open(os.path.join(V, 'properties.jsonl'))]
checks, na = [], []
for p in props:
    i = p['id']
    if i in CHECKS:
        checks.append(dict(
            property=i, quick_cmd='python3 harness/run.py %s --tier quick' % i,
            thorough_cmd='python3 harness/run.py %s --tier thorough' % i,
            technique='TLA+ specification; TLC-generated scenarios replayed into the code; recorded executions validated by TLC'
                      + ('; exhaustive TLC design model' if CHECKS[i].get('models') else ''),
            level='model_checking',
            level_note=CHECKS[i].get('note', 'Every recorded execution of the generated scenarios satisfies every clause of the specification; '
                                     'bounded to the explored scenarios, small grids; trusts TLC, the Java arithmetic of CNum/RNum and the recorder.')))
    else:
        na.append(dict(property=i, reason='no check yet: its specification module is under construction'))
json.dump(dict(version=1, setup_cmd='python3 harness/run.py --setup', checks=checks,
               hooks=dict(guard='none', enable='no hooks: only public calls are observed', source_commits=[]),
               not_applicable=na), open(os.path.join(V, 'MANIFEST.json'), 'w'), indent=1)
print(len(checks), 'checks', len(na), 'not applicable')
