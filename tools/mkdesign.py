#!/usr/bin/env python3
"""mkdesign.py: DESIGN.md from tools/design.md, with the tables of planted bugs, bounds and findings filled in."""
import json, os, re
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
out = open(V + '/tools/design.md').read()
rows = ['| change | property | needs | breaks |', '|---|---|---|---|']
for s in sorted(os.listdir(V + '/seeded')):
    d = json.load(open(f'{V}/seeded/{s}/meta.json'))
    rows.append(f"| {s} | {d['property']} | {d['needs']} | {d['what_it_breaks']} |")
out = out.replace('@SEEDS@', '\n'.join(rows))
b = []
for c in sorted(os.listdir(V + '/harness')):
    p = f'{V}/harness/{c}/spec.json'
    if os.path.exists(p):
        d = json.load(open(p))
        b.append(f'**{c}**\n')
        b += [f'- {x}' for x in d['bounds']]
        b += [f'- outside: {x}' for x in d.get('outside', [])]
        b += [f'- assumed: {x}' for x in d.get('assumptions', [])]
        b.append('')
out = out.replace('@BOUNDS@', '\n'.join(b))
fixed, known = [], {}
for l in open(V + '/known_findings.jsonl'):
    l = l.strip()
    if l.startswith('fixed:'):
        fixed.append('- ' + re.sub(r'^fixed: property=(\S+) (\S+) ', r'\1 `\2`: ', l))
    elif l:
        d = json.loads(l)
        k = (d['property'], re.sub(r"'const.*?'", "'const ... *'", d['what']) if d['property'] == 'C01' else re.sub(r'body is .*? \(', 'body is of one of 6 forms (', d['what']))
        known[k] = known.get(k, 0) + 1
out = out.replace('@FIXED@', '\n'.join(fixed))
out = out.replace('@KNOWN@', '\n'.join(f'- {p} ({n} inputs): {w}' for (p, w), n in sorted(known.items())))
open(V + '/DESIGN.md', 'w').write(out)
