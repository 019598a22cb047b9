#!/usr/bin/env python3
"""plant.py SPEC.py [ID...]: for each planted bug of SPEC: make the change in a scratch copy of /repo, build it, run the stable tests and the
demonstration with and without the change, and keep it under /verif/seeded/<ID> if everything is confirmed."""
import json, os, shutil, subprocess, sys
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__))); S = '/tmp/plant_copy'
BUGS = []
def bug(id, prop, edits, needs, breaks, demo): BUGS.append((id, prop, edits, needs, breaks, demo))
exec(open(sys.argv[1]).read())
def run(c, **k): return subprocess.run(c, shell=True, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, **k)
subprocess.run(['rm', '-rf', S]); run('git clone -q /repo %s' % S)
if run('cmake -S %s -B %s/_build -G Ninja -DCMAKE_BUILD_TYPE=RelWithDebInfo -DCMAKE_CXX_STANDARD=20 -DCMAKE_CXX_COMPILE_OBJECT="<CMAKE_CXX_COMPILER> <DEFINES> <INCLUDES> <FLAGS> -Wno-error -o <OBJECT> -c <SOURCE>" -DFETCHCONTENT_SOURCE_DIR_GOOGLETEST=/usr/src/googletest -DFETCHCONTENT_FULLY_DISCONNECTED=ON' % (S, S), env=dict(os.environ, CC='gcc', CXX='g++')).returncode: sys.exit('configure')
SH = 'd=$(cd "$(dirname "$0")" && pwd); t=$(mktemp -d); g++ -std=c++20 -O1 -w -Iinclude "$d/demo.cpp" -o "$t/demo" && timeout 60 "$t/demo"; rc=$?; rm -rf "$t"; exit $rc\n'
HEAD = '#include <persistence/persistence.hpp>\n#include <persistence/utility.hpp>\n#include <array>\n#include <map>\n#include <set>\n#include <string>\n#include <vector>\n#include <memory>\n#include <variant>\n#include <optional>\n#include <cstdio>\nusing namespace persistence;\n'
for id, prop, edits, needs, breaks, demo in BUGS:
    if len(sys.argv) > 2 and id not in sys.argv[2:]: continue
    if len(sys.argv) == 2 and os.path.exists(V + '/seeded/' + id): continue
    run('git -C %s checkout -q -- .' % S); ok = True
    for f, a, b in edits:
        p = S + '/include/persistence/' + f; s = open(p).read()
        if s.count(a) != 1: print(id, 'EDIT MATCHES', s.count(a), f, a[:60]); ok = False; break
        open(p, 'w').write(s.replace(a, b))
    if not ok: continue
    d = '/tmp/plant_' + id; subprocess.run(['rm', '-rf', d]); os.makedirs(d)
    open(d + '/demo.cpp', 'w').write(HEAD + demo); open(d + '/demo.sh', 'w').write(SH)
    open(d + '/patch.diff', 'w').write(run('git -C %s diff' % S).stdout)
    json.dump(dict(property=prop, needs=needs, what_it_breaks=breaks), open(d + '/meta.json', 'w'), indent=1)
    r = run('bash %s/demo.sh' % d, cwd='/repo')
    if r.returncode: print(id, 'DEMO FAILS ON UNCHANGED TREE', r.returncode, r.stdout[-800:]); continue
    r = run('bash %s/demo.sh' % d, cwd=S)
    if not r.returncode: print(id, 'DEMO PASSES WITH THE CHANGE'); continue
    if 'error:' in r.stdout: print(id, 'DEMO DOES NOT COMPILE WITH THE CHANGE', r.stdout[:800]); continue
    r = run('ninja -C %s/_build' % S)
    if r.returncode: print(id, 'BUILD FAILS', r.stdout[-800:]); continue
    r = run('ctest --test-dir %s/_build -j8 --timeout 300' % S)
    if r.returncode: print(id, 'TESTS FAIL', r.stdout[-600:]); continue
    subprocess.run(['rm', '-rf', V + '/seeded/' + id]); os.makedirs(V + '/seeded', exist_ok=True); shutil.copytree(d, V + '/seeded/' + id); print(id, 'kept')
    subprocess.run(['rm', '-rf', d])
subprocess.run(['rm', '-rf', S])
