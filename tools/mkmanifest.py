#!/usr/bin/env python3
"""Writes MANIFEST.json from cv/props.py and properties.jsonl."""
import json, os, sys
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__))); sys.path.insert(0, V)
from cv.props import PROPS
NA = {}
p = os.path.join(V, 'tools', 'not_applicable.json')
if os.path.exists(p): NA = json.load(open(p))
ids = [json.loads(l)['id'] for l in open(os.path.join(V, 'properties.jsonl'))]
checks = []; na = []
for i in ids:
    P = PROPS.get(i)
    if P is None: na.append(dict(property=i, reason=NA.get(i, 'contracts for the functions this property depends on are not written yet'))); continue
    c = dict(property=i, quick_cmd='python3 check.py --property %s' % i, thorough_cmd='python3 check.py --property %s' % i,
             evidence_file='evidence/%s.json' % i,
             technique='contract-based deductive verification of the real functions (clang AST -> WhyML, why3, z3/cvc5)',
             level='proof', level_note=P['note'] + ' Assumes the library contracts and axioms of theories/cxx.mlw and the translation (DESIGN.md). The real code is also run against an oracle within a time bound: that part is bounded and only gives failing inputs.')
    if P.get('theorems'): c['theorems'] = P['theorems']
    checks.append(c)
json.dump(dict(version=1, setup_cmd='python3 tools/selfcheck.py', checks=checks, not_applicable=na,
               notes='No hooks in /repo: the contracts are in /verif/specs and attached to the functions of the current source on every run.'),
          open(os.path.join(V, 'MANIFEST.json'), 'w'), indent=1)
