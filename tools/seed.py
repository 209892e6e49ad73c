#!/usr/bin/env python3
"""seed.py SPEC.py[:ID]: makes seeded/<id>/ from a specification (dict SEED or list SEEDS of them) and confirms the demonstration in a scratch copy.

SEED = dict(id=, property=, needs=, breaks=, edits=[(file, old, new)], srcs=[sources of /repo/src the demo links], demo='''C++''')
"""
import json
import os
import runpy
import shutil
import subprocess
import sys
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))

DEMO = '''#!/bin/bash
# Run in the repository after the build: exit 0 if the behaviour is right.
set -e
D=$(cd "$(dirname "$0")" && pwd)
T=$(mktemp -d)
trap 'rm -rf "$T"' EXIT
mkdir -p "$T/inc/obake"
sed -e '/^ *@.*@ *$/d' -e 's/@obake_VERSION@/1/;s/@obake_VERSION_[A-Z]*@/0/' config.hpp.in > "$T/inc/obake/config.hpp"
g++ -std=c++20 -O1 -w %(flags)s -I"$D/kit" -I"$T/inc" -Iinclude -I. "$D/demo.cpp" "$D/kit/stub.cpp" %(srcs)s -o "$T/demo" -ltbb -lfmt -lboost_serialization -lpthread
timeout 120 "$T/demo"
'''


def sh(cmd, **k):
    p = subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, **k)
    return p.returncode, p.stdout.decode(errors='replace')


def make(s):
    d = '%s/seeded/%s' % (HERE, s['id'])
    shutil.rmtree(d, ignore_errors=True)
    os.makedirs(d)
    shutil.copytree(HERE + '/shim/common/mp++', d + '/kit/mp++')
    shutil.copy(HERE + '/harness/stub.cpp', d + '/kit/stub.cpp')
    open(d + '/demo.cpp', 'w').write(s['demo'].lstrip('\n'))
    open(d + '/demo.sh', 'w').write(DEMO % {'srcs': ' '.join('src/' + x for x in s.get('srcs', [])), 'flags': s.get('flags', '-DNDEBUG')})
    os.chmod(d + '/demo.sh', 0o755)
    json.dump({'property': s['property'], 'needs': s['needs'], 'what_it_breaks': s['breaks']}, open(d + '/meta.json', 'w'), indent=1)
    w = '/tmp/seedwork'
    shutil.rmtree(w, ignore_errors=True)
    sh(['cp', '-a', '/repo', w])
    sh(['git', '-C', w, 'checkout', '-q', '--', '.'])
    rc0, out0 = sh(['bash', d + '/demo.sh'], cwd=w)
    for f, old, new in s['edits']:
        t = open(w + '/' + f).read()
        assert t.count(old) == 1, (f, old, t.count(old))
        open(w + '/' + f, 'w').write(t.replace(old, new))
    _, diff = sh(['git', '-C', w, 'diff'])
    open(d + '/patch.diff', 'w').write(diff)
    rc1, out1 = sh(['bash', d + '/demo.sh'], cwd=w)
    shutil.rmtree(w)
    ok = rc0 == 0 and rc1 != 0 and 'error:' not in out1
    print(s['id'], 'OK' if ok else 'BAD', 'unchanged rc', rc0, 'patched rc', rc1, out0[-600:] if rc0 else '', out1[-300:])
    return ok


for sp in sys.argv[1:]:
    sp, _, only = sp.partition(':')
    m = runpy.run_path(sp)
    for x in m.get('SEEDS', [m.get('SEED')]):
        if not only or x['id'] == only:
            make(x)
