#!/usr/bin/env python3
"""Rewrite the table of planted bugs in DESIGN.md (between the seeds markers) from seeded/*/meta.json."""
import json, os, re
rows = []
for D, i in [(d, i) for d in ('/verif/seeded', '/verif/seeded_on_fixes') for i in sorted(os.listdir(d))]:
    m = json.load(open(D + '/' + i + '/meta.json'))
    rows.append((m['property'], i, ' '.join(m['needs'].split()), ' '.join(m['what_it_breaks'].split())))
rows.sort()
t = '| check that catches it | planted bug | needs | breaks |\n|---|---|---|---|\n' + ''.join('| %s | %s | %s | %s |\n' % tuple(c.replace('|', '/') for c in r) for r in rows)
p = '/verif/DESIGN.md'; s = open(p).read()
s = re.sub(r'<!-- seeds -->.*<!-- /seeds -->', lambda m: '<!-- seeds -->\n' + t + '<!-- /seeds -->', s, flags=re.S)
open(p, 'w').write(s)
print(len(rows))
