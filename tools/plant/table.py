#!/usr/bin/env python3
"""Rewrite the table of planted bugs in DESIGN.md from /verif/seeded."""
import json, os, re
S = '/verif/seeded'; D = '/verif/DESIGN.md'
rows = [f"| {i} | {json.load(open(f'{S}/{i}/meta.json'))['needs']} |" for i in sorted(os.listdir(S))]
L = open(D).read().split('\n')
at = [k for k, l in enumerate(L) if re.match(r'\| c\d\d-', l)]
L[at[0]:at[-1] + 1] = rows
open(D, 'w').write('\n'.join(L))
print(len(rows), 'bugs')
