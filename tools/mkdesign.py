#!/usr/bin/env python3
"""Refreshes the table of planted bugs in DESIGN.md from seeded/*/meta.json."""
import glob, json, os, re
V = os.path.join(os.path.dirname(os.path.abspath(__file__)), '..')
STRONGER = {'c17-double-pow5'}       # missed at first; the check was strengthened
p = os.path.join(V, 'seeded', 'STRONGER')
if os.path.exists(p): STRONGER |= set(open(p).read().split())
rows = ['| planted bug | file | property | what it breaks | needs |', '|--|--|--|--|--|']
for m in sorted(glob.glob(os.path.join(V, 'seeded', '*', 'meta.json'))):
    d = os.path.dirname(m)
    j = json.load(open(m))
    f = re.search(r'^\+\+\+ b/(\S+)', open(os.path.join(d, 'patch.diff')).read(), re.M).group(1)
    i = os.path.basename(d)
    rows.append('| %s%s | %s | %s | %s | %s |' % (i, '*' if i in STRONGER else '', f, j['property'], j['what_it_breaks'].replace('|', '/'), j['needs'].replace('|', '/')))
q = os.path.join(V, 'DESIGN.md')
s = open(q).read()
s = re.sub(r'<!-- seeded -->.*<!-- /seeded -->', lambda _: '<!-- seeded -->\n' + '\n'.join(rows) + '\n<!-- /seeded -->', s, flags=re.S)
open(q, 'w').write(s)
