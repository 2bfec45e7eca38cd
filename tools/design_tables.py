#!/usr/bin/env python3
"""Print the table of planted bugs for DESIGN.md from seeded/*/meta.json."""
import json, os, sys
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
out = []
for n in sorted(os.listdir(V + '/seeded')):
    m = json.load(open(f'{V}/seeded/{n}/meta.json'))
    out.append(f"| {n} | {m['property']} | {m['what_it_breaks']} |")
t = '| planted bug | caught by | what it breaks |\n|---|---|---|\n' + '\n'.join(out) + '\n'
p = V + '/DESIGN.md'
s = open(p).read()
a, b = '<!-- planted bugs -->\n', '<!-- end of planted bugs -->\n'
i, j = s.index(a) + len(a), s.index(b)
open(p, 'w').write(s[:i] + t + s[j:])
