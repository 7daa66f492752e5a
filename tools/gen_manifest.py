#!/usr/bin/env python3
"""Writes MANIFEST.json from the CHECKS table and the list of properties."""
import json, os, sys
ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, ROOT)
from dst.checks import CHECKS

NA = {
    'N01': 'shortrepr()/repr() is a pure function of a value: no schedule, time, I/O, fault or second party takes part, so a simulator has nothing to decide (layout independence of it is looked at by C15).',
    'N02': 'validation of constructor arguments is a pure function of its arguments; nothing to schedule or inject.',
    'N03': 'mapping of schema names to Python names is a pure function of the schema text.',
    'N04': 'the version check compares two constants when a module is imported; no schedule, time or I/O to simulate.',
}
props = [json.loads(l) for l in open(os.path.join(ROOT, 'properties.jsonl'))]
checks, na = [], []
for p in props:
    i = p['id']
    if i in CHECKS:
        c = CHECKS[i]
        checks.append(dict(property=i, quick_cmd='python3 check.py %s' % i,
                           thorough_cmd='python3 check.py %s --tier thorough' % i,
                           evidence_file='evidence/%s.json' % i,
                           technique='deterministic simulation with fault injection: ' + c.get('technique', 'seeded search over simulated runs'),
                           level=c['level'], level_note=c.get('note', c['rule'])))
    else:
        na.append(dict(property=i, reason=NA.get(i, 'check under construction')))
m = dict(version=1, setup_cmd='true', checks=checks, not_applicable=na)
json.dump(m, open(os.path.join(ROOT, 'MANIFEST.json'), 'w'), indent=1)
print(len(checks), 'checks;', [x['property'] for x in na])
