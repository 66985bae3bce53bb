#!/usr/bin/env python3
"""Rewrites the table of planted bugs at the end of DESIGN.md."""
import json, os, glob
root = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
res = dict((l.split()[0], l.split()[1:]) for l in open(root + '/tools/seed_results.txt'))
rows = ['| planted bug | property | needs | caught by | as |', '|---|---|---|---|---|']
for d in sorted(glob.glob(root + '/seeded/*/meta.json')):
    i = d.split('/')[-2]; m = json.load(open(d)); r = res.get(i)
    by = '?' if not r else (r[0] if r[1] == '1' else 'missed')
    rows.append(f"| {i} | {m['property']} | {m['needs']} | {by} | {r[2] if r else ''} |")
p = root + '/DESIGN.md'; s = open(p).read()
k = s.index('## 7. Which check'); k = s.index('\n\n', s.index('\n\n', k) + 2) + 2
open(p, 'w').write(s[:k] + '\n'.join(rows) + '\n')
