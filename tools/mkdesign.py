#!/usr/bin/env python3
"""Fills the generated tables of DESIGN.md from known-findings.txt and seeded/ (template: tools/DESIGN.in.md)."""
import glob, json, os, re
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
t = open(f'{V}/tools/DESIGN.in.md').read()
fx = {}
for l in open(f'{V}/known-findings.txt'):
    m = re.match(r'fixed: property=(C\d+) (\w+) (.*)', l)
    if m: fx.setdefault(m[1], []).append((m[2], m[3]))
n = sum(map(len, fx.values()))
out = []
for p in sorted(fx):
    out += [f'* **{p}**: ' + '; '.join(f'{b} (`{a}`)' for a, b in fx[p])]
rows = []
for d in sorted(glob.glob(f'{V}/seeded/*/meta.json')):
    m = json.load(open(d))
    rows.append(f"| `{os.path.basename(os.path.dirname(d))}` | {m['property']} | {m['needs']} |")
t = t.replace('@NFIX@', str(n)).replace('@FIXES@', '\n'.join(out)).replace('@NSEED@', str(len(rows))).replace('@SEEDS@', '\n'.join(rows))
open(f'{V}/DESIGN.md', 'w').write(t)
