"""Rewrites the table of planted bugs at the end of DESIGN.md; run by hand."""
import json
import os

head = '| Change | Caught by | Needs |\n|-|-|-|\n'
s = open('DESIGN.md').read()
rows = []
for d in sorted(os.listdir('seeded')):
    m = json.load(open(f'seeded/{d}/meta.json'))
    rows.append(f"| {d} | {m['property']} | {m['needs'].strip().rstrip('.')} |\n")
open('DESIGN.md', 'w').write(s[:s.index(head)] + head + ''.join(rows))
