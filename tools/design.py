#!/usr/bin/env python3
"""Rewrites the list of planted bugs in DESIGN.md (between its markers)."""
import json, os, re
R = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
notes = json.load(open(R + '/tools/catch.json'))
rows = ['<!-- bugs -->', '| bug | caught by | what it breaks | note |', '|---|---|---|---|']
for d in sorted(os.listdir(R + '/seeded')):
    m = json.load(open(f'{R}/seeded/{d}/meta.json'))
    n = notes.get(d, '')
    rows.append(f"| {d} | {'—' if n.startswith('MISSED') else m['property']} | {m['what_it_breaks']} | {n} |".replace('\n', ' '))
rows.append('<!-- end -->')
s = open(R + '/DESIGN.md').read()
t = '\n'.join(rows)
s = s.replace('@@CATCH@@', t) if '@@CATCH@@' in s else re.sub(r'<!-- bugs -->.*?<!-- end -->', lambda _: t, s, flags=re.S)
open(R + '/DESIGN.md', 'w').write(s)
