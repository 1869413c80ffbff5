"""rewrites the table of planted bugs in DESIGN.md from seeded/*/meta.json"""
import glob
import json
import os
import re

V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
rows = ['| planted bug | property | what it breaks | needs | caught by |', '|---|---|---|---|---|']
for f in sorted(glob.glob(V + '/seeded/*/meta.json')):
    m = json.load(open(f))
    rows.append('| %s | %s | %s | %s | %s |' % (os.path.basename(os.path.dirname(f)), m['property'], m['what_it_breaks'], m['needs'], m['property']))
p = V + '/DESIGN.md'
t = open(p).read()
t = re.sub(r'(<!-- seeds -->\n).*?(\n<!-- /seeds -->)', lambda m: m.group(1) + '\n'.join(rows) + m.group(2), t, flags=re.S)
open(p, 'w').write(t)
