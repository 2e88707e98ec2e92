"""Rewrites the table of planted bugs in DESIGN.md from seeded/*/meta.json."""
import json
import os

V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
rows = ['| bug | needs | caught by |', '|---|---|---|']
for d in sorted(os.listdir(os.path.join(V, 'seeded'))):
    m = json.load(open(os.path.join(V, 'seeded', d, 'meta.json')))
    rows.append('| %s | %s | %s quick |' % (d, ' '.join(m['needs'].split())
        .replace('|', '/'), m.get('caught_by', m['property'])))
p = os.path.join(V, 'DESIGN.md')
s = open(p).read()
a, b = '<!-- planted -->\n', '<!-- end -->'
i, j = s.index(a) + len(a), s.index(b)
open(p, 'w').write(s[:i] + '\n'.join(rows) + '\n' + s[j:])
