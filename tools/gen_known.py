#!/usr/bin/env python3
"""Rewrites the "fixed" list of known_findings.json from the fix: commits in /repo (property ids from tools/fixes.txt)."""
import json, os, subprocess
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
ids = dict(l.strip().split('|') for l in open(V + '/tools/fixes.txt') if '|' in l)  # start of the message | property
k = json.load(open(V + '/known_findings.json')) if os.path.exists(V + '/known_findings.json') else {'findings': [], 'fixed': []}
k['fixed'] = []
for l in reversed(subprocess.check_output(['git', '-C', os.environ.get('SRC', '/repo'), 'log', '--format=%h %s', '9ce8f89..HEAD'], text=True).splitlines()):
    h, s = l.split(' ', 1)
    if not s.startswith('fix: '):
        continue
    s = s[5:]
    p = [ids[i] for i in ids if s.startswith(i)]
    assert len(p) == 1, (s, p)
    k['fixed'].append('fixed: property=%s %s %s' % (p[0], h, s))
json.dump(k, open(V + '/known_findings.json', 'w'), indent=1)
