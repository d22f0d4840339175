#!/usr/bin/env python3
"""Fills the generated sections of DESIGN.md (between markers)."""
import glob
import json
import os
import re
import sys
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, os.path.join(HERE, 'tools'))
from design_text import PROPS
P = [json.loads(l) for l in open(os.path.join(HERE, 'properties.jsonl'))]
path = os.path.join(HERE, 'DESIGN.md')
s = open(path).read()
out = []
COST = json.load(open(os.path.join(HERE, 'tools', 'costs.json')))
for p in P:
    t, why = PROPS[p['id']]
    out.append('### %s %s\n\nExplored: %s\n\nBeyond tests: %s\n\nCost: quick '
               '%s s, thorough %s.\n' % (
                   p['id'], p['title'], t, why, COST[p['id']]['quick'],
                   COST[p['id']].get('thorough', 'not timed')))
props = '\n'.join(out)
NOTE = json.load(open(os.path.join(HERE, 'tools', 'bug_notes.json')))
rows = ['| bug | property | needs | check |', '|---|---|---|---|']
for d in sorted(glob.glob(os.path.join(HERE, 'seeded', '*', 'meta.json'))):
    i = os.path.basename(os.path.dirname(d))
    m = json.load(open(d))
    rows.append('| %s | %s | %s | %s |' % (
        i, m['property'], m['needs'].replace('|', '/'),
        NOTE.get(i, 'caught')))
bugs = '\n'.join(rows)
for tag, text in (('PROPS', props), ('BUGS', bugs)):
    a, z = '<!-- %s -->' % tag, '<!-- /%s -->' % tag
    if '@%s@' % tag in s:
        s = s.replace('@%s@' % tag, a + '\n' + z)
    s = s[:s.index(a) + len(a)] + '\n' + text + '\n' + s[s.index(z):]
open(path, 'w').write(s)
