#!/bin/bash
# tryrefactorings.sh [DIFF...] : runs all checks (or those in $CHECKS) against copies of /repo
# with a behaviour-preserving edit; every check has to stay quiet.
cd "$(dirname "$0")"
[ $# -eq 0 ] && set -- refactorings/*.diff
for f in "$@"; do
  f=$(realpath "$f")
  d=$(mktemp -d /tmp/refa.XXXX); cp -a /repo $d/repo; git -C $d/repo checkout -q -- .
  git -C $d/repo apply "$f" || { echo "$f does not apply"; rm -rf "$d"; continue; }
  for c in ${CHECKS:-$(ls ../checks | sed 's/.cpp//')}; do
    s=$(date +%s)
    VERIF_REPO=$d/repo ./check $c --tier quick >$d/out 2>&1; rc=$?
    echo "$(basename $f) $c rc=$rc $(( $(date +%s) - s ))s $(grep -m2 -a -A3 VIOLATION $d/out | cut -c1-300)"
  done
  rm -rf "$d"
done
