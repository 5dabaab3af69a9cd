#!/usr/bin/env python3
"""Writes MANIFEST.json: one check per property that has a rule."""
import json, os, sys
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, HERE)
from kmlint.registry import RULES
import kmlint.registry_all
NA = {
 'C28': 'numerical accuracy (how far floating point drifts from the real-number result) quantifies over runtime floating-point values; no static argument in reach bounds it',
 'C27': 'positive semi-definiteness over all samples is an analytic theorem about the kernels, not a property of the shape of the code; eigenvalue signs of runtime matrices cannot be bounded statically',
}
NOTE = {}
exec(open(os.path.join(HERE, 'tools', 'notes.py')).read()) if os.path.isfile(os.path.join(HERE, 'tools', 'notes.py')) else None
BASE = ('Every path of every listed scenario is analysed for symbolic sizes and contents; a pass means the normal form of each outcome equals the '
        'specification on every decided path (undecided paths are listed in the evidence and raise no alarm). Assumes real arithmetic and the '
        'models of numpy, scipy and scikit-learn in kmlint.')
ids = [json.loads(l)['id'] for l in open(os.path.join(HERE, 'properties.jsonl'))]
checks, na = [], []
for i in ids:
    if i in RULES:
        checks.append({'property': i, 'quick_cmd': 'python3 check.py %s --tier quick' % i,
                       'thorough_cmd': 'python3 check.py %s --tier thorough' % i,
                       'technique': TECH.get(i, DEFTECH), 'level': 'other', 'level_note': NOTE.get(i, '') + (' ' if i in NOTE else '') + BASE})
    else:
        na.append({'property': i, 'reason': NA.get(i, 'no check yet: rule under construction')})
json.dump({'version': 1, 'setup_cmd': 'python3 -m compileall -q kmlint check.py', 'checks': checks, 'not_applicable': na},
          open(os.path.join(HERE, 'MANIFEST.json'), 'w'), indent=1)
print(len(checks), 'checks', len(na), 'not applicable')
