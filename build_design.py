#!/usr/bin/env python3
"""Writes DESIGN.md: design_head.md, then one section per property generated
from pvp/meta.py and the registered sub-checks."""
import os
import sys

if os.environ.get('VP_INNER') != '1':
    import check
    check.__file__ = os.path.abspath(__file__)
    check.reexec()
HERE = os.path.dirname(os.path.abspath(__file__))
sys.path[:0] = [os.environ['VP_REPO'], HERE]
sys.path.append('/opt/veriftools/pyvenv/lib/python3.12/site-packages')
import importlib  # noqa
import textwrap  # noqa
from pvp import core, meta  # noqa

import json  # noqa

with open(os.path.join(HERE, "pvp", "quick.json")) as f:
    mult = json.load(f)
head = open(os.path.join(HERE, 'design_head.md')).read().rstrip()
fnd = json.load(open(os.path.join(HERE, 'known_findings.json')))['findings']
head = head.replace('@@FINDINGS@@', '\n'.join(
    '- ' + ' '.join(f['what'].split()) for f in fnd))
caught = json.load(open(os.path.join(HERE, 'seeded_caught.json')))
rows = ['| planted bug | property | needs | breaks | caught by |',
        '|---|---|---|---|---|']
sd = os.path.join(HERE, 'seeded')
for i in sorted(os.listdir(sd)):
    m = json.load(open(os.path.join(sd, i, 'meta.json')))
    rows.append(f"| {i} | {m['property']} | {m['needs']} | "
                f"{m['what_it_breaks']} | {caught.get(i, 'not run')} |")
head = head.replace('@@SEEDED@@', '\n'.join(rows))
out = [head, '',
       '## Properties, one by one', '']
for p in meta.PROPS:
    out += [f"### {p['id']} {p['title']}", '']
    name = f"pvp.props.{p['id'].lower()}"
    path = os.path.join(HERE, *name.split('.')) + '.py'
    if not os.path.exists(path):
        out += ['Not claimed: ' + p.get('na', 'check not built yet') + '.',
                '']
        continue
    m = importlib.import_module(name)
    out += [f"Over: {p['quant']}.  Oracle: {p['oracle']}.", '',
            'Why tests cannot settle it: ' + p['why'], '']
    out += ['Generation: ' + ' '.join(m.RULE.split()), '']
    for a in getattr(m, 'ASSUMPTIONS', []):
        out += ['Bound/assumption: ' + ' '.join(a.split()), '']
    subs = core._SUBS[name]
    for s in subs.values():
        out.append(f"- `{s.name}` ({s.quick * mult.get(p["id"], 1)} / {s.thorough} cases): "
                   + ' '.join(s.doc.split()))
    out.append('')
txt = []
for ln in '\n'.join(out).split('\n'):
    txt += textwrap.wrap(ln, 78, subsequent_indent='  ' if ln.startswith('- ')
                         else '', break_long_words=False) if (
        len(ln) > 78 and not ln.startswith('|')) else [ln]
with open(os.path.join(HERE, 'DESIGN.md'), 'w') as f:
    f.write('\n'.join(txt) + '\n')
print(len(txt), 'lines')
