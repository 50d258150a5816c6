"""mkseed.py SPEC.py: writes seeded/<id>/ from a python spec holding SEEDS = [dict(id, prop, needs, breaks, edits=[(file, old, new)], demo, libs, flags)]"""
import sys, os, subprocess, tempfile, json, shutil, runpy
ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
SRC = {
    'interface': 'scalopus_interface/src/*.cpp', 'transport': 'scalopus_transport/src/*.cpp', 'general': 'scalopus_general/src/*.cpp',
    'tracing': 'scalopus_tracing/src/*.cpp scalopus_tracing/src/nop/*.cpp',
    'lttngsrc': 'scalopus_tracing/src/lttng/babeltrace*.cpp scalopus_tracing/src/lttng/ctfevent.cpp scalopus_tracing/src/lttng/lttng_*provider.cpp scalopus_tracing/src/lttng/lttng_*source.cpp',
}
INC = ['scalopus_interface/include', 'scalopus_interface/include_consumer', 'scalopus_transport/include', 'scalopus_transport/src', 'scalopus_general/include',
       'scalopus_general/include_consumer', 'scalopus_general/src', 'scalopus_tracing/include', 'scalopus_tracing/include_consumer',
       'scalopus_tracing/src', 'scalopus_tracing/src/native/include', 'scalopus_tracing/src/nop/include', 'scalopus_tracing/src/lttng', 'scalopus_tracing/src/native', 'scalopus_catapult/include', 'scalopus_catapult/src']
def main():
    for s in runpy.run_path(sys.argv[1])['SEEDS']:
        d = os.path.join(ROOT, 'seeded', s['id'])
        shutil.rmtree(d, ignore_errors=True)
        os.makedirs(d)
        w = tempfile.mkdtemp(prefix='seed', dir='/tmp')
        subprocess.check_call('git -C ' + os.environ.get('SRC', '/repo') + ' archive HEAD | tar -x -C ' + w, shell=True)
        subprocess.check_call('git init -q . && git add -A && git -c user.name=x -c user.email=x@x commit -qm x', shell=True, cwd=w)
        for f, old, new in s['edits']:
            p = os.path.join(w, f)
            t = open(p).read()
            assert t.count(old) == 1, (s['id'], f, t.count(old), old)
            open(p, 'w').write(t.replace(old, new))
        open(d + '/patch.diff', 'wb').write(subprocess.check_output(['git', 'diff'], cwd=w))
        shutil.rmtree(w)
        json.dump({'property': s['prop'], 'needs': s['needs'], 'what_it_breaks': s['breaks']}, open(d + '/meta.json', 'w'), indent=1)
        if s.get('kind') == 'python':
            open(d + '/demo.py', 'w').write(s['demo'])
            open(d + '/demo.sh', 'w').write('#!/bin/bash\n# cwd: the repository.  Exit 0 when the property holds for this demonstration.\nPYTHONDONTWRITEBYTECODE=1 exec timeout 60 python3 "$(dirname "$0")/demo.py"\n')
            os.chmod(d + '/demo.sh', 0o755)
            print('wrote', s['id'])
            continue
        for stub in s.get('stubs', []):
            shutil.copytree(os.path.join(ROOT, 'stubs', stub), d + '/stubs/' + stub)
        open(d + '/demo.cpp', 'w').write(s['demo'])
        srcs = ' '.join(SRC.get(l, l) for l in s.get('libs', ['interface', 'transport']))
        open(d + '/demo.sh', 'w').write('''#!/bin/bash
# cwd: the repository.  Exit 0 when the property holds for this demonstration.
D=$(cd "$(dirname "$0")" && pwd)
T=$(mktemp -d) || exit 2
trap 'rm -rf "$T"' EXIT
mkdir "$T/o"
printf '%%s\\n' %s "$D/demo.cpp" | xargs -P 8 -I{} sh -c 'D='"$D"'; g++ -std=c++14 -O1 -g %s %s -c "{}" -o "'"$T"'/o/$(echo {} | tr / _).o" 2>>"'"$T"'/log"' || { cat "$T/log"; exit 2; }
g++ %s -o "$T/demo" "$T"/o/*.o -lpthread %s || exit 2
timeout %d "$T/demo"
r=$?
[ $r -eq 0 ] && echo "demo: property holds" || echo "demo: property broken (exit $r)"
exit $r
''' % (srcs, ('-I$D/stubs ' if s.get('stubs') else '') + ' '.join('-I' + i for i in INC), s.get('flags', ''), s.get('flags', ''), s.get('link', ''), s.get('timeout', 60)))
        os.chmod(d + '/demo.sh', 0o755)
        print('wrote', s['id'])
main()
