#!/bin/bash
# try_bugs.sh ID...: applies each planted bug to /repo, builds, tests, runs the demo and the property's check, undoes it
for id in "$@"; do
  d=/verif/seeded/$id
  prop=$(python3 -c "import json;print(json.load(open('$d/meta.json'))['property'])")
  cd /repo
  if [ -z "$NODEMO" ]; then bash $d/demo.sh >/tmp/try.$id.clean 2>&1; clean=$?; else clean=-; fi
  git apply $d/patch.diff || { echo "$id: patch does not apply"; continue; }
  bash /opt/vp/build.sh >/tmp/try.$id.build 2>&1; b=$?
  bash /opt/vp/test.sh /tmp/try.$id.json >/tmp/try.$id.test 2>&1; t=$?
  if [ -z "$NODEMO" ]; then bash $d/demo.sh >/tmp/try.$id.demo 2>&1; dm=$?; else dm=-; fi
  if [ -z "$NOCHECK" ]; then (cd /verif && ./check $prop quick) >/tmp/try.$id.check 2>&1; c=$?; else c=-; fi
  git checkout -q -- .
  echo "$id ($prop): demo-clean=$clean build=$b tests=$t demo-bug=$dm check=$c  $(grep -a '^VIOLATION' /tmp/try.$id.check 2>/dev/null)"
done
