#!/usr/bin/env python3
"""Writes /verif/MANIFEST.json from the properties that have targets."""
import json, os, re
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
src = open(V + '/vc/targets.py').read()
claimed = sorted(set(re.findall(r'\b(C\d\d)=t_c', src)))
allp = [json.loads(l) for l in open(V + '/properties.jsonl')]
NA = {}
TECH = 'deductive verification of contracts on the real functions (LLVM IR of the current headers; z3 and cvc5)'
NOTE = ('Every obligation (postconditions, callee preconditions, absence of undefined behaviour) generated from the current headers is discharged '
        'for all inputs; trusts clang -O0, the VC generator in vc/ and the solvers; assumes the contracts of std::gcd/std::lcm and the '
        'representation conditions stated in the property; covers the template instances listed in the evidence.')
EXTRA = json.load(open(V + '/tools/notes.json')) if os.path.exists(V + '/tools/notes.json') else {}
checks = []
for p in allp:
    if p['id'] in claimed:
        checks.append(dict(property=p['id'], quick_cmd='python3-vt vc/check.py %s quick' % p['id'],
                           thorough_cmd='python3-vt vc/check.py %s thorough' % p['id'], technique=EXTRA.get(p['id'], {}).get('technique', TECH),
                           level='proof', level_note=EXTRA.get(p['id'], {}).get('note', NOTE)))
m = dict(version=1, setup_cmd='sh tools/setup.sh', checks=checks,
         not_applicable=[dict(property=p['id'], reason=NA.get(p['id'], 'not claimed: no check is registered for it yet')) for p in allp if p['id'] not in claimed],
         hooks=dict(guard='none', enable='no hooks: the checks compile the unmodified headers', source_commits=[]),
         notes='Contracts live in vc/contracts.py and vc/targets.py; see DESIGN.md.')
json.dump(m, open(V + '/MANIFEST.json', 'w'), indent=1)
