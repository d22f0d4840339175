#!/usr/bin/env python3
"""Writes /verif/MANIFEST.json."""
import json
import os

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
props = [json.loads(l) for l in open(os.path.join(HERE, 'properties.jsonl'))]
NOTE = ('Exhaustive within the bounds stated in DESIGN.md and in the evidence '
        'file: every enumerated configuration and operation sequence is '
        'executed on the real code through its public API and compared, step '
        'by step, with an independent reference model in plain Python. '
        'Trusts the reference model, pandas, numpy and dateutil; says nothing '
        'about inputs outside the alphabet.')
checks, na = [], []
for p in props:
    i = p['id']
    if os.path.exists(os.path.join(HERE, 'mc', 'props', i.lower() + '.py')):
        checks.append({
            'property': i,
            'quick_cmd': './check.py %s --tier quick' % i,
            'thorough_cmd': './check.py %s --tier thorough' % i,
            'technique': 'explicit-state model checking: bounded-exhaustive '
                         'enumeration of configurations and operation '
                         'sequences on the real code in lock-step with a '
                         'reference model',
            'level': 'model_checking', 'level_note': NOTE})
    else:
        na.append({'property': i, 'reason': 'check not built yet'})
m = {'version': 1, 'setup_cmd': '/opt/venv/bin/python -B -c "import pandas"',
     'checks': checks, 'not_applicable': na,
     'notes': 'No hooks in /repo: all checks drive the public API. Known '
              'findings and repaired defects: known_findings.txt.'}
with open(os.path.join(HERE, 'MANIFEST.json'), 'w') as f:
    json.dump(m, f, indent=1)
    f.write('\n')
print(len(checks), 'checks')
