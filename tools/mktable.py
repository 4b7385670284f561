#!/usr/bin/env python3
"""mktable.py MATRIX.json...: rewrites the catch matrix at the end of DESIGN.md."""
import json, os, sys
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
m = {}
for f in sys.argv[1:]:
    for i, meta, rc, st in json.load(open(f)):
        if i not in m or rc == 1:
            m[i] = (meta, rc, st)
p = os.path.join(V, 'DESIGN.md')
s = open(p).read()
mark = '## Which check catches which planted bug'
if mark in s:
    s = s[:s.index(mark)]
s = s.rstrip('\n') + '\n\n' + mark + '\n\nQuick tier of the property\'s own check.\n\n| planted bug | property | needs | caught by (stages) |\n|---|---|---|---|\n'
c = lambda t: str(t).replace('|', '\\|').replace('\n', ' ')
for i in sorted(m):
    meta, rc, st = m[i]
    if not os.path.isdir(os.path.join(V, 'seeded', i)):
        continue
    by = ', '.join(st) if st else ('race detector' if rc == 1 else '**missed**')
    s += f"| {i} | {c(meta['property'])} | {c(meta['needs'])} | {c(by)} |\n"
open(p, 'w').write(s)
