#!/usr/bin/env python3
"""DESIGN.md = head + table of planted bugs (seeded/*/meta.json, tools/caught.json) + tail"""
import glob, json, os
R = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
head = open(R + '/tools/design_head.md').read()
tail = open(R + '/tools/design_tail.md').read()
try:
    caught = json.load(open(R + '/tools/caught.json'))
except FileNotFoundError:
    caught = {}
rows = []
for d in sorted(glob.glob(R + '/seeded/*/')):
    m = json.load(open(d + 'meta.json'))
    i = os.path.basename(d.rstrip('/'))
    rows.append('| %s | %s | %s | %s | %s |' % (i, m['property'], m['needs'].replace('|', '\\|'), m['what_it_breaks'].replace('|', '\\|'), caught.get(i, '?')))
mid = open(R + '/tools/design_bugs.md').read().replace('@N@', str(len(rows)))
open(R + '/DESIGN.md', 'w').write(head + mid + '\n'.join(rows) + '\n' + tail)
