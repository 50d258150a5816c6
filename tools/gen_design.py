#!/usr/bin/env python3
"""Writes the table of scenarios and bounds (DESIGN.md section 3) from the harnesses and the last evidence files."""
import json, os, re
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
import sys
sys.path.insert(0, V)
from cfg import PROPS  # noqa: E402
out = ['| property | scenario | quick | thorough | mode | what |', '|---|---|---|---|---|---|']
for pid in sorted(PROPS):
    seen = set()
    for prog in PROPS[pid]['progs']:
        for src in prog['src']:
            if src in seen or not src.endswith(('.cpp', '.py')):
                continue
            seen.add(src)
            if src.endswith('.py'):
                for n in re.search(r'^NAMES = (\[.*\])', open(os.path.join(V, src)).read(), re.M).group(1)[1:-1].replace("'", '').split(', '):
                    out.append('| %s | %s | exhaustive | exhaustive | enumerator | |' % (pid, n))
                continue
            last, cont = '', False
            for l in open(os.path.join(V, src)):
                l = l.rstrip('\n')
                m = re.match(r'MC_SCENARIO\((\w+), *([\w+\- ]+), *([\w+\- ]+), *([\w:| ]+), *(\d+)\)', l)
                e = re.match(r'EN_CASES\((\w+), (\d)\)', l)
                b = lambda x: 'exhaustive' if x == '0' and m and 'SEQ' in m.group(4) else '-' if x == '-1' else x
                if m:
                    f = m.group(4).replace('mc::', '').replace(' | ', ' ')
                    out.append('| %s | %s | %s | %s | %s | %s |' % (pid, m.group(1), b(m.group(2)), b(m.group(3)), '' if f == '0' else f, last))
                elif e:
                    out.append('| %s | %s | %s | exhaustive | enumerator | %s |' % (pid, e.group(1), '-' if e.group(2) == '2' else 'exhaustive', last))
                if l.startswith('// '):
                    last = (last + ' ' if cont else '') + l[3:].replace('|', '/')
                    cont = True
                else:
                    cont = False
                    if not l.startswith('static') or '{' in l or ';' in l:
                        last, cont = '', False
p = os.path.join(V, 'DESIGN.md')
s = open(p).read()
a, z = s.index('<!-- scenarios -->'), s.index('<!-- end -->')
open(p, 'w').write(s[:a] + '<!-- scenarios -->\n' + '\n'.join(out) + '\n' + s[z:])

# section 4: defects repaired, section 7: planted bugs
s = open(p).read()
fx = {}
for l in json.load(open(os.path.join(V, 'known_findings.json')))['fixed']:
    m = re.match(r'fixed: property=(P\d+) (\w+) (.*)', l)
    fx.setdefault(m.group(1), []).append('%s (`%s`)' % (m.group(3), m.group(2)))
lines = ['* **%s** %s' % (k, '; '.join(v)) for k, v in sorted(fx.items())]
a, z = s.index('<!-- fixes -->'), s.index('<!-- end fixes -->')
s = s[:a] + '<!-- fixes -->\n' + '\n'.join(lines) + '\n' + s[z:]
caught = dict(l.rstrip('\n').split('|', 1) for l in open(os.path.join(V, 'tools/caught.txt')) if '|' in l)
rows = ['| planted bug | property | needs | caught by scenario |', '|---|---|---|---|']
for d in sorted(os.listdir(os.path.join(V, 'seeded')), key=lambda d: (json.load(open(os.path.join(V, 'seeded', d, 'meta.json')))['property'], d)):
    m = json.load(open(os.path.join(V, 'seeded', d, 'meta.json')))
    rows.append('| %s | %s | %s | %s |' % (d, m['property'], m['needs'].replace('|', '/'), caught.get(d, '?')))
a, z = s.index('<!-- seeds -->'), s.index('<!-- end seeds -->')
s = s[:a] + '<!-- seeds -->\n' + '\n'.join(rows) + '\n' + s[z:]
open(p, 'w').write(s)
