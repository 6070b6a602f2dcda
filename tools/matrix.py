#!/usr/bin/env python3
"""Rewrites the table of planted bugs in DESIGN.md from seeded/*/meta.json."""
import glob
import json
import os
import re

os.chdir(os.path.join(os.path.dirname(os.path.abspath(__file__)), '..'))
rows = ["| planted bug | caught by (quick) | what it needs to show |", "|---|---|---|"]
for path in sorted(glob.glob('seeded/*/meta.json')):
    meta = json.load(open(path))
    rows.append(f"| {path.split('/')[1]} | {meta['property']} | {meta['needs'].replace('|', '/')} |")
text = open('DESIGN.md').read()
text = re.sub(r'<!-- MATRIX -->.*<!-- /MATRIX -->', lambda _: '<!-- MATRIX -->\n' + '\n'.join(rows) + '\n<!-- /MATRIX -->', text, flags=re.S)
open('DESIGN.md', 'w').write(text)
