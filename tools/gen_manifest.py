#!/usr/bin/env python3
"""Writes MANIFEST.json from cfg.py and properties.jsonl."""
import json, os, sys
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, V)
from cfg import PROPS, NOTES  # noqa: E402
props = [json.loads(l) for l in open(V + '/properties.jsonl')]
MC = 'stateless model checking of the real code under a controlled scheduler (all interleavings up to a preemption/delay bound, all enumerated faults)'
EN = 'exhaustive enumeration of bounded inputs / operation sequences on the real code against a reference model'
PY = 'exhaustive enumeration of bounded Python programs and of all their thread interleavings at library calls, on the real modules against a reference model'
checks, na = [], []
for p in props:
    i = p['id']
    if i in PROPS:
        kinds = {q['kind'] for q in PROPS[i]['progs']}
        t = '; '.join(s for k, s in (('mc', MC), ('en', EN), ('py', PY)) if k in kinds)
        checks.append(dict(property=i, quick_cmd='python3 check.py ' + i, thorough_cmd='python3 check.py %s --tier thorough' % i,
                           technique=t, level='model_checking', level_note=NOTES.get(i, 'Exhaustive within the bounds listed in evidence/%s.json.' % i)))
    else:
        na.append(dict(property=i, reason='No check built yet.'))
m = dict(version=1, setup_cmd='python3 check.py --setup', hooks=dict(guard='none', enable='no hooks: harnesses compile the unmodified sources of /repo', source_commits=[]), checks=checks, not_applicable=na)
json.dump(m, open(V + '/MANIFEST.json', 'w'), indent=1)
