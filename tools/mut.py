"""mut.py SPEC IDREGEX KIND FILE OLD NEW [FILE OLD NEW ...]: run a spec on a scratch copy of the sources with texts replaced (all occurrences of OLD when it starts with '*')"""
import os, shutil, subprocess, sys, tempfile
spec, rx, kind = sys.argv[1:4]
d = tempfile.mkdtemp(prefix='mut_')
for s in ('include', 'src', 'thirdparties'):
    shutil.copytree('/repo/' + s, d + '/' + s, ignore=shutil.ignore_patterns('hexl', '.git', 'test', 'tests'), symlinks=True)
for i in range(4, len(sys.argv), 3):
    f, a, b = sys.argv[i:i + 3]
    t = open(d + '/' + f).read()
    n = 1
    if a.startswith('*'):
        a, n = a[1:], -1
    assert a in t, a
    open(d + '/' + f, 'w').write(t.replace(a, b, n))
try:
    if spec == 'check':
        p = subprocess.run(['python3', '/verif/check.py', rx], env=dict(os.environ, VERIF_REPO=d), capture_output=True, text=True)
    else:
        p = subprocess.run(['python3', '/verif/tools/try.py', spec, rx, kind], env=dict(os.environ, VERIF_REPO=d), capture_output=True, text=True)
    print('\n'.join(l[:300] for l in (p.stdout + p.stderr).splitlines()[-25:]))
finally:
    shutil.rmtree(d)
