#!/bin/bash
# trybugs.sh "BUG..." ["CHECK..."]: runs checks (default: the bug's own property)
# against a scratch copy of /repo with the bug; prints the first violation.
for b in $1; do
  d=$(mktemp -d /tmp/try.XXXX); cp -a /repo $d/repo; git -C $d/repo checkout -q -- .
  if ! git -C $d/repo apply /verif/seeded/$b/patch.diff; then echo "$b: patch fails"; rm -rf "$d"; continue; fi
  prop=$(python3 -c "import json;print(json.load(open('/verif/seeded/$b/meta.json'))['property'])")
  for c in ${2:-$prop}; do
    [ "$c" = all ] && continue
    s=$(date +%s)
    VERIF_REPO=$d/repo /verif/tools/check $c --tier quick >$d/out 2>&1; rc=$?
    echo "$b [$prop] $c rc=$rc $(( $(date +%s) - s ))s $(grep -m1 -a VIOLATION $d/out | cut -c1-160)"
  done
  rm -rf "$d"
done
