#!/usr/bin/env python3
"""Regenerates the table of seeded bugs in DESIGN.md."""
import json, glob, os, re
rows = ['| change | check | needs |', '|---|---|---|']
for d in sorted(glob.glob('/verif/seeded/*/')):
    m = json.load(open(d + 'meta.json')); rows.append(f"| {os.path.basename(d[:-1])} | {m['property']} | {m['needs']} |")
s = open('/verif/DESIGN.md').read()
i = s.index('| change | check | needs |'); j = s.index('\n\n', i)
open('/verif/DESIGN.md', 'w').write(s[:i] + '\n'.join(rows) + s[j:])
