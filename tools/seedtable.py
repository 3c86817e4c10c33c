#!/usr/bin/env python3
"""Rewrites the table of planted bugs at the end of DESIGN.md from seeded/*/meta.json and tools/caught.json."""
import json, os, re
root = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
caught = json.load(open(f'{root}/tools/caught.json'))
rows = ['| bug | breaks | needs | reported by |', '|---|---|---|---|']
for d in sorted(os.listdir(f'{root}/seeded')):
    m = json.load(open(f'{root}/seeded/{d}/meta.json'))
    rows.append(f"| {d} | {m['what_it_breaks']} | {m['needs']} | {caught.get(d, '?')} |")
p = f'{root}/DESIGN.md'
s = open(p).read()
i = s.index('<!-- seeds -->')
open(p, 'w').write(s[:i] + '<!-- seeds -->\n' + '\n'.join(rows) + '\n')
