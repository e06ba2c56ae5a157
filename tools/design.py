"""Rewrite the property table of DESIGN.md from props.py and the check modules (run from /verif)."""
import importlib
import os
import sys
root = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path[:0] = [root, os.path.join(root, 'tools'), os.environ.get('MC_REPO', '/repo')]
from props import PROPS  # noqa: E402

A, B = '<!-- properties -->\n', '<!-- /properties -->\n'
out = []
for d, x in PROPS:
    m = importlib.import_module('mc.checks.' + d['id'].lower())
    out.append(f"### {d['id']} {d['title']}\n\n")
    out.append(f"Enumerated and oracle: {m.RULE}.\n\n")
    for f in m.FAMILIES:
        out.append(f"* `{f.name}`" + (f': {f.what}' if f.what else '') + '\n')
    out.append('\nBounds: ' + '; '.join(m.ASSUMPTIONS) + '.\n\n')
    why = d['why_tests_cant']
    if why:
        out.append(f'Why tests cannot settle it: {why}\n\n')
    if x.get('level_note'):
        out.append(f"Limits: {x['level_note']}\n\n")
p = os.path.join(root, 'DESIGN.md')
s = open(p).read()
i, j = s.index(A) + len(A), s.index(B)
with open(p, 'w') as f:
    f.write(s[:i] + '\n' + ''.join(out) + s[j:])

import json  # noqa: E402
import glob  # noqa: E402
A, B = '<!-- seeded -->\n', '<!-- /seeded -->\n'
s = open(p).read()
if A in s:
    rows = ['| bug | breaks | needs | caught by |\n|---|---|---|---|\n']
    for f in sorted(glob.glob(os.path.join(root, 'seeded', '*', 'meta.json'))):
        m = json.load(open(f))
        rows.append(f"| {os.path.basename(os.path.dirname(f))} | {m['what_it_breaks']} | {m['needs']} | {m['property']} |\n")
    i, j = s.index(A) + len(A), s.index(B)
    with open(p, 'w') as f:
        f.write(s[:i] + '\n' + ''.join(rows) + s[j:])
