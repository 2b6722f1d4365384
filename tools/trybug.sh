#!/bin/bash
# trybug.sh ID...: apply each planted bug to /repo, build, test, run its demo and its check, and restore /repo.
for id in "$@"; do
  d=/verif/seeded/$id
  p=$(python3 -c "import json;print(json.load(open('$d/meta.json'))['property'])")
  cd /repo || exit 1
  bash $d/demo.sh >/dev/null 2>&1; clean=$?
  git -C /repo apply $d/patch.diff || { echo "$id: does not apply"; continue; }
  bash /opt/vp/build.sh >/dev/null 2>&1; b=$?
  t=$(bash /opt/vp/test.sh /tmp/trybug.json 2>/dev/null | tail -1)
  timeout 300 bash $d/demo.sh >/dev/null 2>&1; demo=$?
  cd /verif; out=$(VERIF_EVIDENCE=/tmp/trybug.ev python3 check.py $p 2>&1); c=$?
  git -C /repo checkout -q -- .
  echo "$id $p: build=$b tests=[$t] demo clean=$clean bug=$demo check=$c"
  [ "$c" = 1 ] || echo "$out" | tail -5
done
rm -rf /tmp/trybug.json /tmp/trybug.ev
