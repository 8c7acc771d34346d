#!/usr/bin/env python3
"""Rewrites the table of planted bugs in DESIGN.md (between the two markers) from seeded/*/meta.json."""
import json, glob, os, re
H = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
rows = ['| planted bug | caught by | needs |', '|---|---|---|']
for d in sorted(glob.glob(H + '/seeded/*/meta.json')):
    m = json.load(open(d)); rows.append('| %s | %s | %s |' % (os.path.basename(os.path.dirname(d)), m['property'], m['needs'].replace('|', '/')))
p = H + '/DESIGN.md'; s = open(p).read()
s = re.sub(r'<!-- seeds -->.*<!-- /seeds -->', lambda _: '<!-- seeds -->\n' + '\n'.join(rows) + '\n<!-- /seeds -->', s, flags=re.S)
open(p, 'w').write(s)
