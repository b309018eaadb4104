#!/bin/bash
# Applies each change of /verif/seeded (or those named) to /repo, runs the
# check of its property, and undoes it. Prints caught / MISSED.
cd /verif
for d in ${@:-$(ls seeded)}; do
  p=$(python3 -c "import json;print(json.load(open('seeded/$d/meta.json'))['property'])")
  git -C /repo apply /verif/seeded/$d/patch.diff || { echo "$d does not apply"; continue; }
  s=$(date +%s); bin/check ${PROP:-$p} > build/seeded.$d.log 2>&1; rc=$?; e=$(date +%s)
  git -C /repo checkout -q -- .
  case $rc in 1) r=caught;; 0) r=MISSED;; *) r="ERROR $rc";; esac
  echo "$d ${PROP:-$p} $r $((e-s))s $(grep -oE '[0-9]+ records are no' build/seeded.$d.log)"
done
