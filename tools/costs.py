#!/usr/bin/env python3
"""Writes the cost table of DESIGN.md from two logs of `run.sh` output (quick, thorough)."""
import re, sys
def read(f):
    r = {}
    for l in open(f):
        m = re.search(r'([A-Z]\d\d) \((?:quick|thorough)\): .*?(\d+) transitions.*?([\d.]+) s$', l.strip())
        if m: r[m[1]] = (int(m[2]), float(m[3]))
    return r
q, t = read(sys.argv[1]), read(sys.argv[2])
def n(x): return f'{x/1e6:.1f} M' if x >= 1e5 else f'{x:,}'
def s(x): return f'{x:.0f}' if x >= 10 else f'{x:.1f}'
rows = ['| | quick s | transitions | thorough s | transitions |', '|---|---|---|---|---|']
for k in sorted(q): rows.append(f'| {k} | {s(q[k][1])} | {n(q[k][0])} | ' + (f'{s(t[k][1])} | {n(t[k][0])} |' if k in t else '| |'))
d = open('/verif/DESIGN.md').read()
d = re.sub(r'<!-- cost -->\n(.*?\n)?(?=\n## 4)', lambda _: '<!-- cost -->\n' + '\n'.join(rows) + '\n', d, flags=re.S)
open('/verif/DESIGN.md', 'w').write(d)
