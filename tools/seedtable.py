#!/usr/bin/env python3
"""Rewrites the list of planted changes in DESIGN.md from seeded/*/meta.json."""
import json, os, textwrap
root = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
by = {}
for d in sorted(os.listdir(root + '/seeded')):
    m = json.load(open(f'{root}/seeded/{d}/meta.json'))
    sub = m.get('caught_by')
    by.setdefault(m['property'], []).append(d + (f' ({sub})' if sub else ''))
out = ['<!-- planted -->']
for p in sorted(by):
    out += textwrap.wrap(f"* {p}: " + ', '.join(x[len(p) + 1:] if x.startswith(p + '-') else x for x in by[p]), 130, subsequent_indent='  ', break_on_hyphens=False)
out.append('<!-- /planted -->')
s = open(root + '/DESIGN.md').read()
if '@@TABLE@@' in s:
    s = s.replace('@@TABLE@@', '\n'.join(out))
else:
    a, b = s.index('<!-- planted -->'), s.index('<!-- /planted -->')
    s = s[:a] + '\n'.join(out[:-1]) + '\n' + s[b:]
open(root + '/DESIGN.md', 'w').write(s)
