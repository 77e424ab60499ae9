#!/usr/bin/env python3
""" Write the table of planted changes in DESIGN.md from seeded/ and a log of `tools/seed.py run` (mktable.py LOG). """
import collections
import json
import re
import sys
from pathlib import Path

V = Path(__file__).resolve().parent.parent
got = {}
for ln in open(sys.argv[1]):
    m = re.match(r'(\S+) +(caught|MISSED) (C\d+)', ln)
    if m:
        got[m[1]] = m[2] == 'caught'
by = collections.defaultdict(list)
for d in sorted((V / 'seeded').iterdir()):
    by[json.load(open(d / 'meta.json'))['property']].append(d.name)
lines = ['| check | catches (seeded/) | misses |', '|---|---|---|']
for p in sorted(by):
    short = lambda ids: ', '.join(i.split('-', 1)[1] if i.startswith(p.lower()) else i for i in ids)
    lines.append('| %s | %s | %s |' % (p, short(i for i in by[p] if got.get(i)), short(i for i in by[p] if not got.get(i)) or '-'))
f = V / 'DESIGN.md'
s = f.read_text()
a, b = '<!-- planted -->\n', '<!-- end -->'
f.write_text(s[:s.index(a) + len(a)] + '\n'.join(lines) + '\n' + s[s.index(b):])
print(sum(map(len, by.values())), 'planted,', sum(got.get(i, False) for v in by.values() for i in v), 'caught')
