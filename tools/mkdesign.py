#!/usr/bin/env python3
"""Fills the generated tables of DESIGN.md (bounds, planted bugs)."""
import json, os, re, sys
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, V)
import checks
MISSED = set('b01 b02 b12 b20 b21 b23 b25 b43 b54 c03 c07 d01'.split())
EXTRA = {}
p = V + '/tools/caught.json'
if os.path.exists(p): EXTRA = json.load(open(p))
s = open(V + '/DESIGN.md').read()
b = '\n'.join(f"* **{p}** ({len([v for v in checks.C[p][1] if v.tier == 'q'])} [{len(checks.C[p][1])}] variants): {checks.C[p][0]}." for p in sorted(checks.C))
rows = ['| planted change | property | needs | check |', '|---|---|---|---|']
for d in sorted(os.listdir(V + '/seeded')):
    m = json.load(open(f'{V}/seeded/{d}/meta.json'))
    rows.append(f"| {d}{'*' if d.split('-')[0] in MISSED or EXTRA.get(d) == 'missed' else ''} | {m['property']} | {m['needs']} | {m['property']} |")
def put(s, tag, txt):
    t = f'<!-- {tag} -->\n{txt}\n<!-- /{tag} -->'
    if f'<!-- {tag} -->' in s: return re.sub(f'<!-- {tag} -->.*?<!-- /{tag} -->', lambda m: t, s, flags=re.S)
    return s.replace(tag, t)
s = put(s, 'BOUNDS_TABLE', b)
s = put(s, 'SEED_TABLE', '\n'.join(rows))
open(V + '/DESIGN.md', 'w').write(s)
