#!/usr/bin/env python3
"""Writes BOUNDS.md: every harness with its bounds, from the comments in /verif/harness."""
import glob, os, re
root = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
import json
titles = {}
for line in open(root + '/properties.jsonl'):
    p = json.loads(line); titles[p['id']] = p['title']
found = {}
for f in sorted(glob.glob(root + '/harness/*/*.go')):
    doc = []
    for line in open(f):
        if line.startswith('//'):
            doc.append(line[2:].strip()); continue
        m = re.match(r'func VH_([A-Z]\d\d)_(\w+)\(', line)
        if m:
            found.setdefault(m[1], []).append((m[2], os.path.relpath(f, root), ' '.join(doc)))
        doc = []
out = ['# Bounds of every harness', '',
       'Generated by tools/bounds.py from the comments in harness/ (the evidence files quote the same text).',
       'Names that begin with `T_` run in the thorough tier only; "arbitrary" means a symbolic variable.', '']
for p in titles:
    if p not in found: continue
    out += [f'## {p} {titles[p]}', '']
    for name, f, doc in found[p]:
        out.append(f'- `{name}` ({f}): {doc}')
    out.append('')
open(root + '/BOUNDS.md', 'w').write('\n'.join(out))
