#!/usr/bin/env python3
"""Rewrites the table of planted bugs at the end of DESIGN.md."""
import json, os
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
p = os.path.join(V, 'DESIGN.md')
t = open(p).read()
mark = '<!-- planted -->\n'
t = t.split(mark)[0].rstrip('\n') + '\n\n' + mark + '| planted bug | caught by | needs |\n|---|---|---|\n'
rows = []
for n in sorted(os.listdir(os.path.join(V, 'seeded'))):
    m = json.load(open(os.path.join(V, 'seeded', n, 'meta.json')))
    rows.append('| %s | %s | %s |' % (n, m['property'], m['needs'].replace('|', '/')))
open(p, 'w').write(t + '\n'.join(sorted(rows, key=lambda r: r.split('|')[2])) + '\n')
