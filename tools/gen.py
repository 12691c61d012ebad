#!/usr/bin/env python3
"""Writes properties.jsonl and MANIFEST.json from the table in tools/props.py."""
import json, os, sys
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, os.path.join(HERE, 'tools'))
from props import P
TRUST = ('Trusts: clang 18 (typed AST extraction), the VC generator and term normaliser in engine/, z3 and cvc5, the assumed contracts on the C++ standard '
         'library listed in the evidence; floating point is treated as exact real arithmetic.')
with open(os.path.join(HERE, 'properties.jsonl'), 'w') as f:
    for p in P:
        f.write(json.dumps(dict(id=p['id'], title=p['title'], statement=p['statement'],
                                quantifier=dict(over=p['over'], text=p['all']), why_tests_cant=p['why'],
                                anchors=dict(files=p['files'], mechanism=[dict(name=n, where=w) for n, w in p['mech']]))) + '\n')
checks, na = [], []
for p in P:
    if p.get('na'):
        na.append(dict(property=p['id'], reason=p['na']))
        continue
    c = dict(property=p['id'], quick_cmd='python3 check.py %s --tier quick' % p['id'], thorough_cmd='python3 check.py %s --tier thorough' % p['id'],
             evidence_file='evidence/%s.json' % p['id'],
             technique='contract-based deductive verification (lemmas over the real C++ code, extracted mechanically; VCs discharged by normalisation, z3 and cvc5)',
             level='proof', level_note=p['note'] + ' ' + TRUST)
    checks.append(c)
m = dict(version=1, setup_cmd='mkdir -p build && python3 -c "import check; check.tool()"', checks=checks, not_applicable=na,
         notes='No hooks are needed in /repo: specifications live in /verif/specs and are compiled together with the repository\'s own headers and sources.')
with open(os.path.join(HERE, 'MANIFEST.json'), 'w') as f:
    json.dump(m, f, indent=1)
    f.write('\n')
