#!/usr/bin/env python3
"""Regenerates properties.jsonl and MANIFEST.json from pvp/meta.py."""
import importlib
import json
import os
import sys

HERE = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, HERE)
meta = importlib.import_module('pvp.meta')

TECH = ('property-based testing (Hypothesis): generated inputs/histories '
        'against ')

with open(os.path.join(HERE, 'properties.jsonl'), 'w') as f:
    for p in meta.PROPS:
        f.write(json.dumps(dict(
            id=p['id'], title=p['title'], statement=p['statement'],
            quantifier=dict(over=p.get('over', ['inputs']),
                            text=p['quant']),
            why_tests_cant=p['why'],
            anchors=dict(files=p['files'],
                         state=p.get('state', []),
                         mechanism=[dict(name=n, where=w)
                                    for n, w in p['mech']],
                         observe_at=p.get('observe', []),
                         hook_needed=None))) + '\n')

checks, na = [], []
for p in meta.PROPS:
    mod = os.path.join(HERE, 'pvp', 'props', p['id'].lower() + '.py')
    if not os.path.exists(mod):
        na.append(dict(property=p['id'],
                       reason=p.get('na', 'check not built yet')))
        continue
    checks.append(dict(
        property=p['id'],
        quick_cmd=f"python3 check.py {p['id']} --tier quick",
        thorough_cmd=f"python3 check.py {p['id']} --tier thorough",
        evidence_file=f"evidence/{p['id']}.json",
        technique=TECH + p['oracle'],
        level='exploration',
        level_note=p.get('note', 'Bounded random exploration: no violation '
                         'among the generated cases counted in the '
                         'evidence; trusts the oracle in pvp/props/'
                         + p['id'].lower() + '.py and Hypothesis.')))
man = dict(version=1, setup_cmd='python3 setup_check.py', checks=checks,
           not_applicable=na,
           notes='No hooks in /repo. Every check runs check.py, which '
                 're-executes itself under /opt/venv/bin/python with pvlib '
                 'imported from /repo and Hypothesis from the installed '
                 'python tooling venv.')
with open(os.path.join(HERE, 'MANIFEST.json'), 'w') as f:
    json.dump(man, f, indent=1)
    f.write('\n')
print(len(checks), 'checks,', len(na), 'not applicable')
