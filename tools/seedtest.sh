#!/bin/bash
# tools/seedtest.sh ID...: validates planted bugs in a scratch copy (/tmp/sr): builds, runs the stable tests, runs the demo
S=/tmp/sr
mkdir -p $S.opt
if [ ! -d $S ]; then
  git -C /repo worktree list >/dev/null; cp -a /repo $S; rm -rf /tmp/sr/_build
  for f in build.sh test.sh run_tests.py results.py; do sed "s#/repo#$S#g; s#/opt/vp/\(build.sh\|test.sh\|run_tests.py\|results.py\)#$S.opt/\1#g" /opt/vp/$f > $S.opt/$f; done
  bash $S.opt/build.sh > $S.opt/build.log 2>&1 || { echo "scratch build failed"; exit 1; }
fi
H=$(git -C /repo rev-parse HEAD)
git -C $S checkout -q -- . ; git -C $S fetch -q /repo HEAD && git -C $S checkout -q $H
for id in "$@"; do
  D=/verif/seeded/$id
  git -C $S checkout -q -- .
  git -C $S apply $D/patch.diff || { echo "$id: patch does not apply"; continue; }
  bash $S.opt/test.sh $S.opt/$id.json > $S.opt/$id.log 2>&1
  python3 - $id $S.opt/$id.json <<'P'
import json,sys
b=set(json.load(open('/opt/vp/BASELINE.json'))['stable']); p=set(json.load(open(sys.argv[2]))['passed'])
print(sys.argv[1],'stable tests missing:',sorted(b-p))
P
  (cd $S && timeout 300 bash $D/demo.sh > $S.opt/$id.demo 2>&1); echo "$id: demo with patch exit $?"
  git -C $S checkout -q -- .
  (cd /repo && timeout 300 bash $D/demo.sh > $S.opt/$id.demo0 2>&1); echo "$id: demo clean exit $?"
done
