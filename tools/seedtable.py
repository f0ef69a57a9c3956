#!/usr/bin/env python3
"""Rewrites the table of planted bugs at the end of DESIGN.md from seeded/*/meta.json and RESULTS (id rc lines)."""
import json, glob, os, sys
root = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
res = {}
for l in open(root + '/tools/seed_results.txt'):
    f = l.split(None, 3)
    res[f[0]] = f
d = open(root + '/DESIGN.md').read()
mark = '<!-- seeds -->'
d = d.split(mark)[0].rstrip('\n') + '\n\n' + mark + '\n| id | needs | caught | note |\n|----|-------|--------|------|\n'
for p in sorted(glob.glob(root + '/seeded/*/meta.json')):
    id = p.split('/')[-2]
    m = json.load(open(p))
    r = res.get(id, [id, '?', '', ''])
    d += '| %s | %s | %s | %s |\n' % (id, m['needs'], {'1': 'yes', '0': 'NO'}.get(r[1], r[1]), r[3].strip() if len(r) > 3 else '')
open(root + '/DESIGN.md', 'w').write(d)
