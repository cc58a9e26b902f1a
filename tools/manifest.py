"""Writes MANIFEST.json from the checks present."""
import json
import os

ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
TECH = json.load(open(os.path.join(ROOT, 'tools', 'techniques.json')))
ids = [json.loads(l)['id'] for l in open(os.path.join(ROOT, 'properties.jsonl'))]
checks, na = [], []
for i in ids:
    if os.path.exists(os.path.join(ROOT, 'checks', i.lower() + '.py')):
        t, n = TECH[i]
        checks.append({'property': i, 'quick_cmd': 'bin/check %s --quick' % i, 'thorough_cmd': 'bin/check %s --thorough' % i,
                       'technique': t, 'level': 'exploration', 'level_note': n})
    else:
        na.append({'property': i, 'reason': 'its monitor is still being built'})
json.dump({'version': 1, 'setup_cmd': 'true', 'checks': checks, 'not_applicable': na,
           'notes': 'No hooks in /repo: the monitors observe the public API of the code imported from the working tree. '
                    'assimulo is not installed; harness/assimulo_stub.py stands for it and records what the '
                    'integrator receives.'},
          open(os.path.join(ROOT, 'MANIFEST.json'), 'w'), indent=1)
print(len(checks), 'checks', len(na), 'not claimed')
