"""Writes MANIFEST.json from the checks that exist."""
import glob
import importlib
import json
import os
import sys

here = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, here)
sys.path.append('/opt/veriftools/pyvenv/lib/python3.12/site-packages')
NA = {}
DEFAULT = ('Bounded symbolic execution of the current sources with exact real arithmetic; every claim is decided by z3 for all values within the bounds listed in the evidence. '
           'Trusts the symbolic interpreter in vlib (validated on every run by replaying solver models on the real code); rounding is outside the claims.')
exec(open(os.path.join(here, 'tools', 'not_applicable.py')).read())
checks, na = [], []
for line in open(os.path.join(here, 'properties.jsonl')):
    pid = json.loads(line)['id']
    if os.path.exists(os.path.join(here, 'checks', pid.lower() + '.py')):
        mod = importlib.import_module('checks.' + pid.lower())
        checks.append({'property': pid, 'quick_cmd': f'./check {pid} quick', 'thorough_cmd': f'./check {pid} thorough',
                       'evidence_file': f'evidence/{pid}.json',
                       'technique': getattr(mod, 'TECHNIQUE', 'symbolic execution of the Python source, claims decided by an SMT solver (z3)'),
                       'level': mod.LEVEL, 'level_note': getattr(mod, 'NOTE', DEFAULT)})
    else:
        na.append({'property': pid, 'reason': NA.get(pid, 'no check built yet')})
m = {'version': 1, 'setup_cmd': 'true', 'checks': checks, 'not_applicable': na}
json.dump(m, open(os.path.join(here, 'MANIFEST.json'), 'w'), indent=1)
print(len(checks), 'checks;', 'not applicable:', ' '.join(x['property'] for x in na))
