#!/usr/bin/env python3
"""Rewrites the table of planted bugs in DESIGN.md from seeded/*/meta.json and
tools/strengthened.json (what a bug that was missed at first led to)."""
import json, os
V = '/verif'
how = json.load(open(f'{V}/tools/strengthened.json'))
rows = ['| planted bug | property | needs | caught |', '|---|---|---|---|']
for i in sorted(os.listdir(f'{V}/seeded')):
    m = json.load(open(f'{V}/seeded/{i}/meta.json'))
    h = how.get(i)
    c = f"{m['property']}, after: {h}" if h else m['property']
    if h and h.startswith('NOT'): c = h
    rows.append(f"| {i} | {m['property']} | {m['needs'].strip().rstrip('.')} | {c} |".replace('\n', ' '))
t = open(f'{V}/DESIGN.md').read()
a, b = '<!-- seeds -->', '<!-- /seeds -->'
t = t[:t.index(a) + len(a)] + '\n' + '\n'.join(rows) + '\n' + t[t.index(b):]
open(f'{V}/DESIGN.md', 'w').write(t)
