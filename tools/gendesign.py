#!/usr/bin/env python3
"""Fills the table of planted bugs in DESIGN.md from seeded/*/meta.json (between the two markers)."""
import json, glob, os
root = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
rows = []
for m in sorted(glob.glob(root + '/seeded/*/meta.json')):
    d = json.load(open(m))
    rows.append('| %s | %s | %s |' % (os.path.basename(os.path.dirname(m)), d['property'], d['needs'].replace('|', '\\|')))
p = root + '/DESIGN.md'
s = open(p).read()
a, b = '<!-- seeds -->\n', '<!-- /seeds -->'
i, j = s.index(a) + len(a), s.index(b)
t = '%d planted bugs:\n\n| seed | caught by | needs |\n|---|---|---|\n' % len(rows) + '\n'.join(rows) + '\n'
open(p, 'w').write(s[:i] + t + s[j:])
