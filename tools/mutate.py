#!/usr/bin/env python3
"""Mutation runs: tools/mutate.py FILE PROP... [--n N] [--seed S] [--lines A-B]
Applies single edits to FILE in a scratch copy of the tree, runs the checks until one reports a violation, and lists the edits
that none reports.  Not used by any registered check."""
import os, random, re, subprocess, sys, shutil, time
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
a = sys.argv[1:]
def opt(n, d):
    if n in a:
        i = a.index(n)
        v = a[i + 1]
        del a[i:i + 2]
        return v
    return d
N, seed, lines = int(opt('--n', '20')), int(opt('--seed', '1')), opt('--lines', '')
f, props = a[0], a[1:]
src = os.environ.get('SRC', '/repo')
R = os.environ.get('MUTREPO', '/tmp/mutrepo')
os.makedirs(R, exist_ok=True)
subprocess.check_call('git -C %s archive HEAD | tar -x -C %s' % (src, R), shell=True)
path = os.path.join(R, f)
text = open(path).read().split('\n')
def edits(i):
    l = text[i]
    s = l.strip()
    if not s or s.startswith(('//', '*', '/*', '#', 'namespace', 'using', 'return {')) or s in ('{', '}', '};', 'public:', 'private:'):
        return
    ind = l[:len(l) - len(l.lstrip())]
    if s.endswith(';') and re.match(r'^[\w:>\.\-\[\]\(\)\*&]+(\(|\.|->|\+\+| = |--)', s) and not re.match(r'^(return|const|auto|std::\w+(<.*>)? \w|bool|int|size_t|char|struct)\b', s) and s.count('(') == s.count(')'):
        yield ind + '/* deleted */;'
    if s.startswith(('std::lock_guard', 'std::unique_lock')):
        yield ind + '/* no lock */' if 'lock_guard' in s else l
    m = re.match(r'^(\s*)((?:else )?if|while) \((.*)\)(.*)$', l)
    if m and m.group(3).count('(') == m.group(3).count(')'):
        yield '%s%s (!(%s))%s' % m.groups()
        if 'while' not in m.group(2):
            yield '%s%s (false && (%s))%s' % m.groups()
            yield '%s%s (true || (%s))%s' % m.groups()
    for x, y in ((' == ', ' != '), (' != ', ' == '), (' < ', ' <= '), (' > ', ' >= '), (' <= ', ' < '), (' >= ', ' > '), (' && ', ' || '), (' || ', ' && '), (' + ', ' - '), (' - ', ' + '), ('true', 'false'),
                 ('false', 'true'), ('++', '--'), ('+=', '='), ('continue;', 'break;'), ('break;', 'continue;'), ('begin()', 'end()'), ('front()', 'back()'), ('back()', 'front()'), ('.first', '.second'), ('nullptr', 'this')):
        k = l.find(x)
        if k >= 0 and 'include' not in l and '//' not in l[:k]:
            yield l[:k] + y + l[k + len(x):]
    for m in re.finditer(r'(?<![\w\.])(\d+)(?![\w\.])', l):
        if '//' not in l[:m.start()]:
            yield l[:m.start()] + str(int(m.group(1)) + 1) + l[m.end():]
    if s.startswith('return ') and s.endswith(';') and len(s) > 8:
        yield ind + 'return {};'
lo, hi = (map(int, lines.split('-')) if lines else (30, len(text)))
cand = [(i, e) for i in range(lo - 1, min(hi, len(text))) for e in edits(i) if e != text[i]]
# two neighbouring statements swapped
for i in range(lo - 1, min(hi, len(text)) - 1):
    p, q = text[i], text[i + 1]
    if p.strip().endswith(';') and q.strip().endswith(';') and not p.strip().startswith(('return', '//')) and p.strip() != q.strip():
        cand.append((i, ('swap', q, p)))
random.Random(seed).shuffle(cand)
done = 0
env = dict(os.environ, VERIF_REPO=R, VERIF_BUILD=os.environ.get('VERIF_BUILD', '/tmp/mutbuild2'))
for i, e in cand:
    if done >= N:
        break
    new = list(text)
    if isinstance(e, tuple):
        new[i], new[i + 1] = e[1], e[2]
        what = 'swap %s <-> %s' % (text[i].strip(), text[i + 1].strip())
    else:
        new[i] = e
        what = '%s  ->  %s' % (text[i].strip(), e.strip())
    open(path, 'w').write('\n'.join(new))
    verdict, t0 = 'SURVIVED', time.time()
    for p in props:
        try:
            r = subprocess.run([sys.executable, V + '/check.py', p], env=env, capture_output=True, text=True, timeout=890)
        except subprocess.TimeoutExpired:
            verdict = 'TIMEOUT ' + p
            break
        if 'BUILD FAILED' in r.stdout:
            verdict = None
            break
        if r.returncode == 1:
            verdict = 'caught by ' + p
            break
        if r.returncode != 0:
            verdict = 'NO ANSWER %s %s' % (p, r.stdout.strip().split('\n')[-1][:150])
    open(path, 'w').write('\n'.join(text))
    if verdict is None:
        continue
    done += 1
    print('%-18s %s:%d  %s  (%.0f s)' % (verdict, os.path.basename(f), i + 1, what, time.time() - t0), flush=True)
