"""writes MANIFEST.json from the checks present in checks/"""
import importlib
import json
import os
import sys

H = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path[:0] = [H, os.path.join(H, 'engine')]
props = [json.loads(x) for x in open(os.path.join(H, 'properties.jsonl'))]
NA = {
    'C41': 'the accuracy of an adaptive Runge-Kutta integration is a property of scipy/JAX internals and of the exact flow of a nonlinear '
           'differential equation; neither is expressible as a bounded first-order query over the code under test',
}
checks, na = [], []
for p in props:
    i = p['id']
    if os.path.exists(os.path.join(H, 'checks', i.lower() + '.py')):
        m = importlib.import_module('checks.' + i.lower())
        cmd = f'/opt/venv/bin/python run.py {i}'
        checks.append(dict(
            property=i, quick_cmd=cmd + ' --tier quick', thorough_cmd=cmd + ' --tier thorough', evidence_file=f'evidence/{i}.json',
            technique='symbolic execution of the real Python code with z3 (SMT), counterexamples replayed on the unmodified code',
            level='model_checking',
            level_note='Bounded: holds for every value within: ' + m.BOUNDS +
            '. Trusts: reals for floats, the library stand-ins (validated by replaying path witnesses), z3.'))
    else:
        na.append(dict(property=i, reason=NA.get(i, 'no check built yet')))
json.dump(dict(version=1, setup_cmd='/opt/venv/bin/python tools/setup_check.py', checks=checks, not_applicable=na,
               notes='engine/: symbolic executor; checks/: one harness file per property; run.py: entry point'),
          open(os.path.join(H, 'MANIFEST.json'), 'w'), indent=1)
print(len(checks), 'checks', len(na), 'not applicable')
