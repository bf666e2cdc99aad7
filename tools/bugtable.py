#!/usr/bin/env python3
"""Rewrites the table of planted bugs at the end of DESIGN.md from seeded/*/meta.json."""
import glob, json, os
top = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
p = top + '/DESIGN.md'
s = open(p).read()
head = '## Planted bugs\n'
s = s[:s.index(head)]
rows = sorted(
    ((json.load(open(f))['property'], os.path.basename(os.path.dirname(f)), json.load(open(f))) for f in glob.glob(top + '/seeded/*/meta.json')), key=lambda r: r[:2])
s += head + '''
`seeded/` is generated by `tools/bugs/mkbugs.py`; `trybug.sh` confirms each (stable tests pass, demonstration fails with
and passes without it, check fails), `checkblame.py` that they change original lines. Each was written from the
property's text. All of them are caught by the quick check of the property named.

| Property | Bug | What it breaks | Needs |
|---|---|---|---|
'''
for prop, name, m in rows:
    s += '| %s | %s | %s | %s |\n' % (prop, name, m['what_it_breaks'].replace('|', '\\|'), m['needs'].replace('|', '\\|'))
open(p, 'w').write(s)
