"""Rewrites the 'Planted bugs' section at the end of DESIGN.md from seeded/*/meta.json (documentation only; no check reads seeded/)."""
import json, os, re
R = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
HEAD = '## Planted bugs and the checks that catch them'
BOUNDED = {'i03-float-index': 'oracle', 't03-loop-order': 'oracle (bounded stand-in)', 'e07-cache-by-name': 'oracle (bounded stand-in)'}
rows = []
for d in sorted(os.listdir(os.path.join(R, 'seeded'))):
    p = os.path.join(R, 'seeded', d, 'meta.json')
    if not os.path.exists(p): continue
    m = json.load(open(p))
    how = m.get('caught') or BOUNDED.get(d, 'failed obligation, concrete input')
    rows.append('| %s | %s | %s | %s | %s |' % (d, m['property'], m['what_it_breaks'].replace('|', '/'), m['needs'].replace('|', '/'), how))
text = open(os.path.join(R, 'DESIGN.md')).read()
text = text.split(HEAD)[0].rstrip() + '\n\n' + HEAD + '''

Each is applied to a copy of /repo and its property's check run (quick tier). "failed obligation, concrete input": an obligation
generated from the changed source is not discharged and the replay program finds an input on which the compiled code breaks the property.

| bug | check | what breaks | needs | caught by |
|-----|-------|-------------|-------|-----------|
''' + '\n'.join(rows) + '\n'
open(os.path.join(R, 'DESIGN.md'), 'w').write(text)
