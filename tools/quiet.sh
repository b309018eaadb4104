#!/bin/bash
# quiet.sh PATCH...: applies each behaviour-preserving patch to /repo, runs
# every check (they have to stay quiet), and undoes it.
cd "$(dirname "$0")/.."
git -C /repo diff --quiet || { echo "/repo is not clean"; exit 2; }
for p in "$@"; do
  git -C /repo apply "$p" || exit 2
  for k in $(seq -w 1 27); do
    out=$(bin/check C$k 2>&1); rc=$?
    [ $rc = 0 ] || { echo "ALARM C$k rc=$rc on $p"; echo "$out" | tail -5; }
  done
  git -C /repo checkout -- .
  echo "done $p"
done
