"""Rewrite the table of planted bugs in DESIGN.md from seeded/*/meta.json."""
import json
import os
R = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
rows = []
for b in sorted(os.listdir(R + '/seeded')):
    p = R + '/seeded/' + b + '/meta.json'
    if os.path.exists(p):
        d = json.load(open(p))
        rows.append((d['property'], b, d['needs']))
rows.sort()
t = '| check that catches it | bug | needs |\n|---|---|---|\n' + ''.join('| {} | {} | {} |\n'.format(*r) for r in rows)
s = open(R + '/DESIGN.md').read()
a, b = '<!-- planted -->\n', '<!-- /planted -->'
s = s[:s.index(a) + len(a)] + t + s[s.index(b):]
open(R + '/DESIGN.md', 'w').write(s)
print(len(rows))
