#!/usr/bin/env python3
"""Rewrites the table of planted changes in DESIGN.md from seeded/*/meta.json."""
import json, os, re
here = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
c = lambda x: str(x).replace('|', '\\|').replace('\n', ' ')
rows = ['| seeded change | property | what it breaks | needs |', '|---|---|---|---|']
for i in sorted(os.listdir(f'{here}/seeded')):
    m = json.load(open(f'{here}/seeded/{i}/meta.json'))
    rows.append(f"| {i} | {m['property']} | {c(m['what_it_breaks'])} | {c(m['needs'])} |")
s = open(f'{here}/DESIGN.md').read()
a, b = '<!-- SEEDTABLE -->\n', '\n<!-- /SEEDTABLE -->'
i, j = s.index(a) + len(a), s.index(b)
open(f'{here}/DESIGN.md', 'w').write(s[:i] + '\n'.join(rows) + s[j:])
