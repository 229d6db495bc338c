#!/usr/bin/env python3
"""Rewrites the table of planted bugs in DESIGN.md from seeded/ and the log of
`mkseed.py --checks` (given as argument)."""

import json
import re
import sys
from pathlib import Path

HERE = Path(__file__).resolve().parent.parent
caught = {}
for line in Path(sys.argv[1]).read_text().splitlines():
    m = re.match(r'(c\d\d-\S+) (True|False) ', line)
    if m:
        caught[m[1]] = m[2] == 'True'
rows = ['| planted bug | property | needs | caught by quick |', '|---|---|---|---|']
for d in sorted((HERE / 'seeded').iterdir()):
    meta = json.loads((d / 'meta.json').read_text())
    got = {True: 'yes', False: 'no', None: '?'}[caught.get(d.name)]
    rows.append(f'| {d.name} | {meta["property"]} | {meta["needs"]} | {got} |')
path = HERE / 'DESIGN.md'
text = path.read_text()
head, rest = text.split('<!-- table -->')
_, tail = rest.split('<!-- end -->')
path.write_text(head + '<!-- table -->\n' + '\n'.join(rows) + '\n<!-- end -->' + tail)
