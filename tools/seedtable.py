"""Rewrites the table of planted bugs at the end of DESIGN.md from seeded/*/meta.json."""
import glob
import json
import os

V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
MARK = '<!-- seed table -->'
rows = []
for f in sorted(glob.glob(V + '/seeded/*/meta.json')):
    m = json.load(open(f))
    cell = lambda s: ' '.join(s.split()).replace('|', '/')
    rows.append(f"| {os.path.basename(os.path.dirname(f))} | {m['property']} | {cell(m['what_it_breaks'])} | {cell(m['needs'])} |")
p = V + '/DESIGN.md'
s = open(p).read()
i = s.index(MARK) if MARK in s else s.index('SEEDTABLE')
open(p, 'w').write(s[:i] + MARK + '\n\n| planted bug | caught by the check of | what it breaks | what it needs to show |\n|---|---|---|---|\n'
                   + '\n'.join(rows) + '\n')
print(len(rows))
