"""Refresh the generated table of planted bugs in DESIGN.md."""
import json, glob, os, re
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
rows = ['<!-- seeds -->', '| id | property | needs | breaks |', '|---|---|---|---|']
for m in sorted(glob.glob(V + '/seeded/*/meta.json')):
    d = json.load(open(m))
    rows.append('| %s | %s | %s | %s |' % (m.split('/')[-2], d['property'], d['needs'].replace('|', '/'), d['what_it_breaks'].replace('|', '/')))
rows.append('<!-- /seeds -->')
p = V + '/DESIGN.md'
s = open(p).read()
s = s.replace('@SEEDS@', '<!-- seeds -->\n<!-- /seeds -->')
s = re.sub(r'<!-- seeds -->.*<!-- /seeds -->', lambda m: '\n'.join(rows), s, flags=re.S)
open(p, 'w').write(s)
