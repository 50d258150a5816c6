#!/usr/bin/env python3
"""Decide one property: build its harness programs from /repo's working tree, run them, write the evidence file.

  check.py P01 [--tier quick|thorough]      exit 0 held, 1 violated (VIOLATION line), 2 no answer
  check.py --replay FILE                    re-run one recorded violation verbosely
"""
import argparse, concurrent.futures as cf, glob, hashlib, json, os, re, shutil, subprocess, sys, time
VERIF = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, VERIF)
from cfg import PROPS, LIBS, INCLUDES  # noqa: E402
REPO = os.environ.get('VERIF_REPO', '/repo')
BUILD = os.environ.get('VERIF_BUILD', os.path.join(VERIF, 'build'))
CACHE = os.path.join(BUILD, 'cache')
COMMON = ['-std=c++17', '-g', '-pthread', '-w', '-fno-omit-frame-pointer']
FLAGS = {
    'mc': COMMON + ['-O1', '-fsanitize=thread', '-fno-pie', '-fno-builtin-memcmp'],
    'en': COMMON + ['-O1', '-fsanitize=address,undefined', '-fno-sanitize=vptr', '-fno-sanitize-recover=all', '-D_GLIBCXX_ASSERTIONS'],
    'rt': ['-std=c++17', '-O2', '-g', '-pthread', '-fno-pie', '-Wall', '-fno-builtin-malloc'],
    'enm': COMMON + ['-O1', '-fsanitize=address,undefined', '-fno-sanitize=vptr', '-fno-sanitize-recover=all'],
}

class BuildError(Exception):
    pass

def incs():
    r = ['-I' + os.path.join(VERIF, d) for d in ('stubs', 'mc', 'en', 'h')]
    r += ['-I' + os.path.join(REPO, d) for d in INCLUDES]
    return r

def compile_one(src, kind, extra):
    flags = FLAGS[kind] + list(extra) + incs()
    pp = subprocess.run(['g++', '-E', '-P', *flags, src], capture_output=True)
    if pp.returncode != 0:
        raise BuildError('preprocessing %s failed:\n%s' % (src, pp.stderr.decode()[-3000:]))
    # -P drops line markers; the line table still comes from the source, so hash the source too
    h = hashlib.sha256(pp.stdout + open(src, 'rb').read() + ' '.join(flags + [src]).encode()).hexdigest()[:32]
    obj = os.path.join(CACHE, h + '.o')
    if not os.path.exists(obj):
        tmp = obj + '.%d.tmp' % os.getpid()
        r = subprocess.run(['g++', *flags, '-c', src, '-o', tmp], capture_output=True)
        if r.returncode != 0:
            raise BuildError('compiling %s failed:\n%s' % (src, r.stderr.decode()[-4000:]))
        os.replace(tmp, obj)
    return obj

def lib_sources(lib):
    out = []
    for g in LIBS[lib]:
        neg = g.startswith('!')
        files = sorted(glob.glob(os.path.join(VERIF, g[1:]) if g.startswith('+') else os.path.join(REPO, g.lstrip('!'))))
        if neg:
            out = [f for f in out if f not in files]
        else:
            out += [f for f in files if f not in out]
    return out

def build(progs):
    os.makedirs(CACHE, exist_ok=True)
    jobs = {}
    def want(src, kind, extra=()):
        jobs.setdefault((src, kind, tuple(extra)), None)
        return (src, kind, tuple(extra))
    plan = []
    for p in progs:
        if p['kind'] == 'py':
            continue
        k = p['kind']
        extra = tuple(p.get('flags', ()))
        main = [want(os.path.join(VERIF, s), k, extra) for s in p['src']]
        if k == 'mc':
            main += [want(os.path.join(VERIF, 'mc', s), 'rt') for s in ('rt.cpp', 'rt_mem.cpp', 'rt_net.cpp', 'main.cpp')]
        else:
            main += [want(os.path.join(VERIF, 'en/en_main.cpp'), 'enm')]
        libs = [[want(s, k, extra) for s in lib_sources(l)] for l in p.get('libs', ())]
        plan.append((p, main, libs))
    with cf.ThreadPoolExecutor(8) as ex:
        futs = {j: ex.submit(compile_one, *j) for j in jobs}
        for j, f in futs.items():
            jobs[j] = f.result()
    bins = {}
    for p, main, libs in plan:
        objs = [jobs[j] for j in main]
        lo = [jobs[j] for l in libs for j in l]
        d = os.path.join(BUILD, 'bin')
        os.makedirs(d, exist_ok=True)
        exe = os.path.join(d, p['name'])
        ar = exe + '.a'
        if os.path.exists(ar):
            os.remove(ar)
        cmd = ['g++', '-pthread', '-o', exe] + objs
        if lo:
            # the same object may appear in the cache under one name only; archive members are kept apart by name
            subprocess.run(['ar', 'rcs', ar] + lo, check=True)
            cmd += ['-Wl,--start-group', ar, '-Wl,--end-group']
        if p['kind'] == 'mc':
            cmd += ['-no-pie', '-Wl,--wrap=memcpy,--wrap=memmove,--wrap=memset,--wrap=memcmp', '-ldl']
        else:
            cmd += ['-fsanitize=address,undefined']
        cmd += list(p.get('link', ()))
        r = subprocess.run(cmd, capture_output=True)
        if r.returncode != 0:
            raise BuildError('linking %s failed:\n%s' % (p['name'], r.stderr.decode()[-4000:]))
        bins[p['name']] = exe
    return bins

def locales(names):
    """Makes locales for the checked programs, from the definitions of the system; without those these locales are not tried."""
    if not names or not shutil.which('localedef'):
        return {}
    d = os.path.join(BUILD, 'locale')
    os.makedirs(d, exist_ok=True)
    for n in names:
        f = os.path.join(d, n + '.UTF-8')
        if not os.path.isdir(f):
            subprocess.run(['localedef', '-i', n, '-f', 'UTF-8', f + '.%d' % os.getpid()], capture_output=True)
            if os.path.isdir(f + '.%d' % os.getpid()):
                try:
                    os.rename(f + '.%d' % os.getpid(), f)
                except OSError:
                    shutil.rmtree(f + '.%d' % os.getpid(), ignore_errors=True)
    return {'LOCPATH': d}

def load_known():
    f = os.path.join(VERIF, 'known_findings.json')
    return json.load(open(f)) if os.path.exists(f) else {'findings': [], 'fixed': []}

def main():
    ap = argparse.ArgumentParser()
    ap.add_argument('prop', nargs='?')
    ap.add_argument('--tier', default=os.environ.get('VERIF_TIER', 'quick'))
    ap.add_argument('--replay')
    ap.add_argument('--build-only', action='store_true')
    ap.add_argument('--prog')
    ap.add_argument('--setup', action='store_true', help='build every program')
    ap.add_argument('--scenario', action='append', default=[])
    ap.add_argument('--bound', type=int)
    ap.add_argument('--time', type=float)
    a = ap.parse_args()
    if a.replay:
        m = re.match(r'(P\d\d)-([^/]*?)-', os.path.basename(a.replay))
        pid, prog = m.group(1), m.group(2)
        progs = [p for p in PROPS[pid]['progs'] if p['name'] == prog]
        bins = build(progs)
        if progs[0]['kind'] == 'py':
            sys.exit(subprocess.run([sys.executable, os.path.join(VERIF, progs[0]['src'][0]), '--replay', a.replay]).returncode)
        sys.exit(subprocess.run([bins[prog], '--replay', a.replay], env=dict(os.environ, **locales(progs[0].get('locales')))).returncode)
    t0 = time.time()
    if a.setup:
        build([p for q in PROPS.values() for p in q['progs']])
        return
    pid = a.prop
    progs = [p for p in PROPS[pid]['progs'] if not a.prog or p['name'] == a.prog]
    try:
        bins = build(progs)
    except BuildError as e:
        print('BUILD FAILED for %s\n%s' % (pid, e))
        sys.exit(2)
    tb = time.time() - t0
    print('%s: built in %.1f s' % (pid, tb), flush=True)
    if a.build_only:
        return
    outdir = os.path.join(VERIF, 'replays')
    os.makedirs(outdir, exist_ok=True)
    known = [k for k in load_known()['findings'] if k['property'] == pid]
    budget = float(PROPS[pid].get('budget', {}).get(a.tier, 780 if a.tier == 'quick' else 36000))
    res, viol, errs = [], [], []
    knownhits = {}
    for p in progs:
        vdir = os.path.join(BUILD, 'run', pid + '-' + p['name'])
        shutil.rmtree(vdir, ignore_errors=True)
        os.makedirs(vdir)
        out = os.path.join(vdir, 'out.json')
        left = max(20.0, budget - (time.time() - t0))
        if p['kind'] == 'py':
            cmd = [sys.executable, os.path.join(VERIF, p['src'][0])]
        else:
            cmd = [bins[p['name']]]
        cmd += ['--tier', a.tier, '--out', out, '--vdir', vdir]
        if p['kind'] == 'mc':
            cmd += ['--total', '%.0f' % left]
            for k in known:
                for s in k.get('signatures', []):
                    cmd += ['--known', s + '|' + k['id']]
            for s in a.scenario or p.get('scenarios', []):
                cmd += ['--scenario', s]
            if a.bound is not None:
                cmd += ['--bound', str(a.bound)]
        if a.time or p['kind'] == 'en':
            cmd += ['--time', '%.0f' % (a.time or left)]
        env = dict(os.environ, ASAN_OPTIONS='detect_leaks=0:abort_on_error=0:allocator_may_return_null=1', UBSAN_OPTIONS='print_stacktrace=1', VERIF_REPO=REPO)
        env.update(locales(p.get('locales')))
        r = subprocess.run(cmd, env=env, stderr=subprocess.PIPE, stdout=subprocess.PIPE)
        txt = r.stderr.decode(errors='replace')
        sys.stdout.write(txt)
        sys.stdout.flush()
        if os.path.exists(out):
            for x in json.load(open(out)):
                x['program'] = p['name']
                res.append(x)
                if 'violation' in x:
                    dst = os.path.join(outdir, '%s-%s-%s.replay' % (pid, p['name'], x['scenario']))
                    shutil.copy(x['violation']['replay'], dst)
                    viol.append((x, dst))
                if 'error' in x:
                    errs.append(x)
                for k, n in x.get('known', {}).items():
                    knownhits[k] = knownhits.get(k, 0) + n
        if r.returncode not in (0, 1) and not any('error' in x for x in res):
            errs.append({'scenario': p['name'], 'error': {'msg': 'program failed with code %s: %s' % (r.returncode, txt[-500:] + r.stdout.decode(errors='replace')[-500:])}})
        if viol:
            break
    cov = {
        'states': sum(x['states'] for x in res),
        'transitions': sum(x['transitions'] for x in res),
        'traces_validated_against_impl': sum(max(x['executions'], x.get('cases') or 0) for x in res),
        'exhaustive': bool(res) and all(x.get('exhaustive') or x.get('completed') == x.get('bound') for x in res),
        'samples': [],
        'scenarios': [],
        'note': 'every explored execution runs the code of the tree itself (no separate model), so the number of traces validated against the implementation is the number of executions; "exhaustive" means every scenario finished all executions within its stated deviation bound',
    }
    for x in res:
        cov['scenarios'].append({k: x.get(k) for k in ('program', 'scenario', 'bound', 'completed', 'executions', 'cases', 'pruned', 'states', 'transitions', 'choice_points', 'longest', 'exhaustive', 'distinct_outcomes', 'seconds') if k in x})
        for o in x.get('outcomes', [])[:3]:
            cov['samples'].append('%s: %s' % (x['scenario'], o or '(completed)'))
    cov['samples'] = cov['samples'][:60]
    ev = {'property': pid, 'tier': a.tier if a.tier in ('quick', 'thorough') else 'quick', 'seed': int(os.environ.get('VERIF_SEED', '1') or 1),
          'level': 'model_checking', 'coverage': cov, 'assumptions': PROPS[pid].get('assumptions', []), 'wall_s': round(time.time() - t0, 2), 'violations': len(viol)}
    os.makedirs(os.path.join(VERIF, 'evidence'), exist_ok=True)
    json.dump(ev, open(os.path.join(VERIF, 'evidence', pid + '.json'), 'w'), indent=1)
    for k in known:
        if knownhits.get(k['id']) or k.get('always'):
            print('KNOWN-FINDING: property=%s %s' % (pid, k['what']))
    if viol:
        for x, dst in viol:
            print('  %s: %s: %s' % (x['scenario'], x['violation']['kind'], x['violation']['msg']))
            print('VIOLATION property=%s replay=%s' % (pid, dst))
        sys.exit(1)
    if errs:
        for x in errs:
            print('ERROR %s: %s' % (x['scenario'], x['error'].get('msg')))
        sys.exit(2)
    print('%s held: %d executions, %d states, %.0f s' % (pid, cov['traces_validated_against_impl'], cov['states'], time.time() - t0))

main()
