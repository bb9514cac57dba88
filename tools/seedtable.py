#!/usr/bin/env python3
"""Rewrites the table of planted changes in DESIGN.md (section 6) from seeded/*/meta.json and tools/caught.txt."""
import json, os
R = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
caught = dict(l.split(None, 1) for l in open(R + '/tools/caught.txt') if l.strip()) if os.path.exists(R + '/tools/caught.txt') else {}
rows = ['| change | property | what it breaks | caught by |', '|---|---|---|---|']
for d in sorted(os.listdir(R + '/seeded')):
    m = json.load(open(f'{R}/seeded/{d}/meta.json'))
    rows.append(f"| {d} | {m['property']} | {m['what_it_breaks']} | {caught.get(d, m['property']).strip()} |")
s = open(R + '/DESIGN.md').read()
a, b = '<!-- seeds -->\n', '<!-- end of seeds -->\n'
if '@@SEEDS@@' in s:
    s = s.replace('@@SEEDS@@\n', a + b)
i, j = s.index(a) + len(a), s.index(b)
open(R + '/DESIGN.md', 'w').write(s[:i] + '\n'.join(rows) + '\n' + s[j:])
