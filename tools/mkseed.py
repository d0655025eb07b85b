#!/usr/bin/env python3
"""mkseed.py ID PROPERTY: reads a JSON-ish python file from stdin with EDITS, NEEDS, BREAKS, DEMO[, FLAGS, SRC]; writes seeded/ID"""
import os, subprocess, sys, json, tempfile, shutil
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
DEMO_SH = '''#!/bin/bash
# builds demo.cpp against the sources and libraries of the current directory's repository
D=$(cd "$(dirname "$0")" && pwd); R=$PWD
T=$(mktemp -d); trap 'rm -r "$T"' EXIT
I="-I$R/include -I$R/thirdparties/spqlios -I$R/thirdparties/randen -I$R/thirdparties/cereal/include"
g++ -O1 -std=c++20 -w %(flags)s -DUSE_RANDEN -march=x86-64-v3 -maes -mpclmul -fopenmp $I "$D/demo.cpp" %(src)s \\
  -L$R/_build/src %(lib)s $R/_build/thirdparties/spqlios/libspqlios.a $R/_build/thirdparties/randen/libranden.a -o "$T/demo" || exit 3
timeout 250 "$T/demo"
'''
ns = {}
exec(sys.stdin.read(), ns)
sid, prop = sys.argv[1:3]
d = os.path.join(V, 'seeded', sid)
os.makedirs(d, exist_ok=True)
t = tempfile.mkdtemp(prefix='sd_')
subprocess.check_call('git -C /repo archive HEAD | tar x -C %s && cd %s && git init -q && git add -A && git -c user.email=a -c user.name=a commit -qm x' % (t, t), shell=True)
for f, a, b in ns['EDITS']:
    p = os.path.join(t, f); s = open(p).read()
    assert s.count(a) == 1, (f, a, s.count(a))
    open(p, 'w').write(s.replace(a, b))
diff = subprocess.run(['git', '-C', t, 'diff'], capture_output=True, text=True).stdout
shutil.rmtree(t)
open(os.path.join(d, 'patch.diff'), 'w').write(diff)
src = ns.get('SRC', False)
open(os.path.join(d, 'demo.sh'), 'w').write(DEMO_SH % {'flags': ns.get('FLAGS', ''), 'src': '$R/src/*.cpp $R/thirdparties/spqlios/fft_processor_spqlios.cpp' if src else '',
                                                      'lib': '' if src else '$R/_build/src/libtfhe++.a'})
os.chmod(os.path.join(d, 'demo.sh'), 0o755)
open(os.path.join(d, 'demo.cpp'), 'w').write(ns['DEMO'])
json.dump({'property': prop, 'needs': ns['NEEDS'], 'what_it_breaks': ns['BREAKS']}, open(os.path.join(d, 'meta.json'), 'w'), indent=1)
print(sid, len(diff.splitlines()), 'diff lines')
