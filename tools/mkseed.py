# usage: python3 tools/mkseed.py SPEC.py   (SPEC calls seed(...)); writes /verif/seeded/<id>/
import sys, os, subprocess, json, shutil
R = os.environ.get('SEED_REPO', '/repo')
def seed(id, prop, edits, demo, needs, what, srcs='', flags='', step=False, timeout=120, lib=()):
    subprocess.check_call(['git', '-C', R, 'checkout', '-q', '--', '.'])
    for f, o, n in edits:
        p = os.path.join(R, f); b = open(p, 'rb').read(); o = o.encode(); n = n.encode()
        if b'\r\n' in b: o = o.replace(b'\n', b'\r\n'); n = n.replace(b'\n', b'\r\n')
        assert b.count(o) == 1, (id, f, b.count(o))
        open(p, 'wb').write(b.replace(o, n))
    d = '/verif/seeded/' + id; os.makedirs(d, exist_ok=True)
    diff = subprocess.check_output(['git', '-C', R, 'diff', '--binary']); open(d + '/patch.diff', 'wb').write(diff)
    subprocess.check_call(['git', '-C', R, 'checkout', '-q', '--', '.'])
    open(d + '/demo.cpp', 'w').write(demo)
    if step: shutil.copy('/verif/tools/demo/step.h', d + '/step.h')
    open(d + '/demo.sh', 'w').write('''#!/bin/bash
# exit 0: behaves as it should; nonzero: broken. Run with cwd = repository root.
here="$(cd "$(dirname "$0")" && pwd)"; out="$(mktemp -d)"; trap 'rm -rf "$out"' EXIT
%sg++-10 -std=c++17 -msse2 -mcx16 -DLIBICONV_PLUG -w %s -Iinclude -I"$here" "$here/demo.cpp" %s -o "$out/demo" -lpthread || exit 3
cd "$out" && timeout %d ./demo
''' % (''.join(('gcc-10' if x.endswith('.c') else 'g++-10 -std=c++17') + ' -msse2 -mcx16 -DLIBICONV_PLUG -w -include stdlib.h -include malloc.h -Iinclude -c bss-util/%s -o "$out/%s.o" || exit 3\n' % (x, x) for x in lib), flags + ' -include stdlib.h -include malloc.h', srcs + (' "$out"/*.o' if lib else ''), timeout))
    json.dump(dict(property=prop, needs=needs, what_it_breaks=what), open(d + '/meta.json', 'w'), indent=1)
    print(id, len(diff))
exec(open(sys.argv[1]).read())
