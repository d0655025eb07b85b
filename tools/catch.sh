#!/bin/bash
# tools/catch.sh ID...: does the check of the seed's property report it (on a scratch copy of the sources)?
for id in "$@"; do
  R=/tmp/rc_$id; mkdir -p $R; git -C /repo archive HEAD | tar x -C $R
  (cd $R && git init -q . && git apply /verif/seeded/$id/patch.diff) || echo "$id: patch does not apply"
  p=$(python3 -c "import json;print(json.load(open('/verif/seeded/$id/meta.json'))['property'])")
  VERIF_REPO=$R timeout 900 python3 /verif/check.py ${PROP:-$p} > /tmp/catch_$id.log 2>&1; rc=$?
  echo "$id ${PROP:-$p} rc=$rc $(grep -c '^VIOLATION' /tmp/catch_$id.log) violations"
  rm -r "$R"
done
