#!/usr/bin/env python3
"""Fills section 7 of DESIGN.md from seeded/*/meta.json."""
import json, os, re
root = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
MISSED = json.load(open(root + '/tools/missed.json'))
rows = []
for d in sorted(os.listdir(root + '/seeded')):
    m = json.load(open(f'{root}/seeded/{d}/meta.json'))
    note = MISSED.get(d, '')
    rows.append(f"| `{d}` | {m['property']} | {m['needs']} | {note} |")
p = root + '/DESIGN.md'
s = open(p).read()
a, b = '<!-- planted -->', '<!-- /planted -->'
s = s[:s.index(a) + len(a)] + '\n| id | caught by | needs | missed at first because |\n|---|---|---|---|\n' + '\n'.join(rows) + '\n' + s[s.index(b):]
open(p, 'w').write(s)
print(len(rows), 'planted bugs')
