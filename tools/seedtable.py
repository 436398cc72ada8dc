#!/usr/bin/env python3
"""Rewrites the table of planted bugs in DESIGN.md from seeded/*/meta.json."""
import glob
import json
import os
import re
V = os.path.dirname(os.path.dirname(os.path.realpath(__file__)))
rows = ['| change | needs | caught by |', '|---|---|---|']
for f in sorted(glob.glob(V + '/seeded/*/meta.json')):
    m = json.load(open(f))
    rows.append('| %s | %s | %s |' % (f.split('/')[-2], m['needs'], m['property']))
t = '<!-- seeds -->\n' + '\n'.join(rows) + '\n<!-- /seeds -->\n'
p = V + '/DESIGN.md'
s = open(p).read()
s = s.replace('SEEDS\n', t, 1) if '<!-- seeds -->' not in s else re.sub(r'<!-- seeds -->\n.*<!-- /seeds -->\n', lambda _: t, s, flags=re.S)
open(p, 'w').write(s)
