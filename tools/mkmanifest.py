#!/usr/bin/env python3
"""Writes MANIFEST.json: claimed = the modules in props/, the rest not_applicable with the reason below."""
import json, os, importlib, sys
d = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path[:0] = [d + '/lib', d + '/props']
NA = json.load(open(d + '/tools/na.json'))
checks, na = [], []
for l in open(d + '/properties.jsonl'):
    p = json.loads(l)['id']
    if os.path.exists('%s/props/%s.py' % (d, p.lower())) and p not in NA:
        m = importlib.import_module(p.lower())
        checks.append({'property': p, 'quick_cmd': './check.py ' + p, 'thorough_cmd': './check.py --thorough ' + p,
                       'technique': getattr(m, 'TECHNIQUE', None) or TV_T if False else getattr(m, 'TECHNIQUE', 'symbolic execution of the compiled x86-64 code against an independent compiler\'s, z3 equivalence queries (translation validation)'),
                       'level': m.LEVEL, 'level_note': getattr(m, 'NOTE', 'For each corpus program, equality of return value, memory, external calls and traps is decided by z3 for all inputs (loops within path/step bounds that are checked); says nothing on programs outside the corpus. Trusts lib/x86sym.py\'s instruction semantics, the oracle compiler and z3; a counterexample is replayed natively before it is reported.')})
    else:
        na.append({'property': p, 'reason': NA.get(p, 'not built yet')})
m = {'version': 1, 'setup_cmd': './setup.sh', 'checks': checks, 'not_applicable': na,
     'notes': 'See DESIGN.md. No hooks are needed in /repo.'}
json.dump(m, open(d + '/MANIFEST.json', 'w'), indent=1)
print(len(checks), 'claimed', len(na), 'not')
