#!/bin/bash
# seedtest.sh ID...: confirms planted bugs (builds, tests pass, demo fails with / passes without) and runs the check
V=$(cd "$(dirname "$0")/.." && pwd)
for id in "$@"; do
  d=$V/seeded/$id; p=$(python3 -c "import json;print(json.load(open('$d/meta.json'))['property'])")
  cd /repo; [ -z "$(git status --porcelain)" ] || { echo "/repo is dirty"; exit 1; }
  c=$(mktemp -d); cp -r $d/. $c; rm -f $c/*.diff $c/meta.json
  bash $c/demo.sh >/tmp/seed.clean 2>&1; r0=$?
  git apply $d/patch.diff || { echo "$id: patch does not apply"; rm -r $c; continue; }
  bash $c/demo.sh >/tmp/seed.patched 2>&1; r1=$?
  if [ "${NOTESTS:-}" ]; then t=skipped; else bash /opt/vp/build.sh >/tmp/seed.build 2>&1 && bash /opt/vp/test.sh /tmp/seed.out >/tmp/seed.test 2>&1; t=$(tail -1 /tmp/seed.test); fi
  $V/check $p >/tmp/seed.check 2>&1; r2=$?
  cp /tmp/seed.check /tmp/seed.check.$id
  git checkout -q -- .
  rm -r $c
  echo "$id $p demo clean=$r0 patched=$r1 tests=[$t] check=$r2 $(grep -c ^VIOLATION /tmp/seed.check.$id) violations"
done
