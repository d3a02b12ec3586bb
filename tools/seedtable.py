#!/usr/bin/env python3
"""seedtable.py: rewrite the table of planted bugs in DESIGN.md from seeded/*/meta.json."""
import glob, json, os, re
os.chdir(os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
rows = ['| planted bug | caught by | needs | breaks |', '|---|---|---|---|']
for d in sorted(glob.glob('seeded/*/meta.json')):
    m = json.load(open(d))
    rows.append('| %s | %s | %s | %s |' % (d.split('/')[1], m.get('caught_by', m['property']), m['needs'].replace('|', '\\|'), m['what_it_breaks'].replace('|', '\\|')))
t = open('DESIGN.md').read()
t = re.sub(r'<!-- seeds -->.*?(<!-- /seeds -->|(?=\n\nBesides))', lambda _: '<!-- seeds -->\n' + '\n'.join(rows) + '\n<!-- /seeds -->', t, flags=re.S)
open('DESIGN.md', 'w').write(t)
