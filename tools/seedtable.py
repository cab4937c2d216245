"""Rewrites the table of planted bugs in DESIGN.md from seeded/*/meta.json."""
import glob
import json
import os
import re

ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
BEGIN, END = '<!-- planted bugs -->', '<!-- end of planted bugs -->'

rows = ['| bug | needs | breaks | caught by |', '|---|---|---|---|']
for f in sorted(glob.glob(ROOT + '/seeded/*/meta.json')):
    m = json.load(open(f))
    rows.append('| %s | %s | %s | %s |' % (os.path.basename(os.path.dirname(f)), m['needs'].replace('|', '/'),
                                           m['what_it_breaks'].replace('|', '/'), m.get('caught_by', m['property'])))
path = ROOT + '/DESIGN.md'
text = open(path).read()
table = BEGIN + '\n' + '\n'.join(rows) + '\n' + END
if BEGIN in text:
    text = re.sub(re.escape(BEGIN) + '.*' + re.escape(END), lambda _: table, text, flags=re.S)
else:
    text = text.replace('SEEDTABLE', table)
open(path, 'w').write(text)
