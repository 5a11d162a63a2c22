#!/usr/bin/env python3
"""Writes /verif/MANIFEST.json from properties.jsonl and the harnesses present."""
import json, os
H = os.path.join(os.path.dirname(os.path.abspath(__file__)), '..')
checks, na = [], []
for line in open(os.path.join(H, 'properties.jsonl')):
    p = json.loads(line)
    pid = p['id']
    if os.path.exists(os.path.join(H, 'harness', pid.lower() + '.py')):
        checks.append(dict(
            property=pid,
            quick_cmd='python3-vt check.py %s --tier quick' % pid,
            thorough_cmd='python3-vt check.py %s --tier thorough' % pid,
            evidence_file='evidence/%s.json' % pid,
            technique='symbolic execution of the current Python source with z3, counterexamples replayed on the unmodified code',
            level='model_checking',
            level_note='Every path of the encoded functions within the bounds stated in the evidence file is decided by z3 '
                       '(bounded; no claim outside). Cryptographic primitives are modelled (ideal signatures and hashes, '
                       'see DESIGN.md) and a violation is reported only after it was reproduced on the unmodified code.'))
    else:
        na.append(dict(property=pid, reason='no check yet'))
json.dump(dict(version=1, setup_cmd='python3-vt -c "import z3, sys; sys.path.append(\'/opt/venv/lib/python3.12/site-packages\'); import cryptography, ijson"',
               checks=checks, not_applicable=na,
               notes='No hooks in /repo: the checks instrument the source while loading it.'),
          open(os.path.join(H, 'MANIFEST.json'), 'w'), indent=1)
print(len(checks), [x['property'] for x in na])
