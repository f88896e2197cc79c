"""Fills the table of planted bugs into DESIGN.md (between the markers)."""
import json, os, re
here = os.path.join(os.path.dirname(os.path.abspath(__file__)), '..')
rows = []
for d in sorted(os.listdir(os.path.join(here, 'seeded'))):
    m = json.load(open(os.path.join(here, 'seeded', d, 'meta.json')))
    rows.append((m['property'], d, m['needs']))
rows.sort()
table = '| caught by | planted bug | needs |\n|---|---|---|\n' + ''.join('| %s | `%s` | %s |\n' % r for r in rows)
path = os.path.join(here, 'DESIGN.md')
s = open(path).read()
block = '<!-- planted -->\n%s<!-- /planted -->' % table
s = s.replace('@@TABLE@@', block) if '@@TABLE@@' in s else re.sub(r'<!-- planted -->.*<!-- /planted -->', lambda m: block, s, flags=re.S)
open(path, 'w').write(s)
print(len(rows), 'bugs')
