#!/usr/bin/env python3
"""Writes properties.jsonl and MANIFEST.json (the text of the properties lives here)."""
import json, os
V = os.path.dirname(os.path.abspath(__file__))
TECH = 'CBMC bounded symbolic execution of the real C sources (SAT), counterexamples replayed natively'
TECH_SYM = 'path-wise symbolic execution of the LLVM IR compiled from the real C sources; z3 decides every branch, assertion and memory access on every feasible path; counterexamples replayed natively'
P, NA = [], []


def p(id, title, statement, over, text, why, files, mech, note, na=None, observe=(), sym=False):
    P.append(dict(id=id, title=title, statement=statement, quantifier=dict(over=over, text=text), why_tests_cant=why,
                  anchors=dict(files=files, mechanism=[dict(name=n, where=w) for n, w in mech], observe_at=list(observe), hook_needed=None)))
    if na:
        NA.append(dict(property=id, reason=na))
    else:
        P[-1]['_note'] = note
        P[-1]['_tech'] = TECH_SYM if sym else TECH


exec(open(V + '/props_text.py').read())

with open(V + '/properties.jsonl', 'w') as f:
    for x in P:
        f.write(json.dumps({k: v for k, v in x.items() if k[0] != '_'}) + '\n')
checks = [dict(property=x['id'], quick_cmd='python3 check.py %s' % x['id'], thorough_cmd='python3 check.py %s --thorough' % x['id'],
               technique=x['_tech'], level='model_checking', level_note=x['_note']) for x in P if '_note' in x]
json.dump(dict(version=1, setup_cmd='true', checks=checks, not_applicable=NA), open(V + '/MANIFEST.json', 'w'), indent=1)
