#!/usr/bin/env python3
"""Rewrites the table of planted bugs in DESIGN.md (between the two markers)
from seeded/*/meta.json. Run by hand after adding seeds; no check reads it."""
import json, os, re
here = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
rows = []
for d in sorted(os.listdir(here + '/seeded')):
    m = json.load(open(f'{here}/seeded/{d}/meta.json'))
    rows.append(f"| {d} | {m['property']} | {m['needs']} | {m['what_it_breaks']} |")
table = "\n".join(["| id | caught by | needs | what it breaks |", "|---|---|---|---|"] + rows)
s = open(here + '/DESIGN.md').read()
a, b = '<!-- seeds -->', '<!-- /seeds -->'
i, j = s.index(a) + len(a), s.index(b)
open(here + '/DESIGN.md', 'w').write(s[:i] + "\n" + table + "\n" + s[j:])
