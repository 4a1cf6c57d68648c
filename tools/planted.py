#!/usr/bin/env python3
"""Rewrites the table of planted changes at the end of DESIGN.md from seeded/."""
import json, os
D = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
rows = {}
for d in sorted(os.listdir(D + '/seeded')):
    m = json.load(open(f'{D}/seeded/{d}/meta.json'))
    rows.setdefault(m['property'], []).append((d, m['what_it_breaks'], m['needs']))
out = ['| change | what it breaks | needs |', '|--------|----------------|-------|']
for p in sorted(rows):
    out.append(f'| **{p}** | | |')
    out += [f'| {d} | {b} | {n} |' for d, b, n in rows[p]]
s = open(D + '/DESIGN.md').read()
mark = '<!-- table -->\n'
s = s[:s.index(mark)] + mark + '\n'.join(out) + '\n'
open(D + '/DESIGN.md', 'w').write(s)
