#!/usr/bin/env python3
"""Rewrites section 7 of DESIGN.md from seeded/*/meta.json and tools/catches.txt (id: result)."""
import json, os, re
root = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
res = {}
for l in open(root + '/tools/catches.txt'):
    if ':' in l:
        k, v = l.split(':', 1); res[k.strip()] = v.strip()
rows = []
for d in sorted(os.listdir(root + '/seeded')):
    m = json.load(open(f'{root}/seeded/{d}/meta.json'))
    rows.append(f"| {d} | {m['property']} | {m['what_it_breaks'].replace('|', '/')} | {res.get(d, 'not run')} |")
t = open(root + '/DESIGN.md').read()
t = t[:t.index('## 7.')] + '## 7. Which check catches which change\n\n' \
    'Result of the quick check of the property named, run with the change applied to `/repo`.\n\n' \
    '| change | property | what it breaks | result |\n|---|---|---|---|\n' + '\n'.join(rows) + '\n'
open(root + '/DESIGN.md', 'w').write(t)
