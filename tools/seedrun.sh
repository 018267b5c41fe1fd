#!/bin/bash
# seedrun.sh [TIER] ID...: run the check of each planted bug's property against /repo with the bug applied
V=$(cd "$(dirname "$0")/.." && pwd); cd $V
T=quick; case "$1" in quick|thorough) T=$1; shift;; esac
for id in "$@"; do
  p=${PROP:-$(python3 -c "import json;print(json.load(open('seeded/$id/meta.json'))['property'])")}
  git -C /repo apply $V/seeded/$id/patch.diff || { echo "$id: no apply"; continue; }
  s=$(date +%s); timeout 900 python3-vt tools/check.py $p $T >/tmp/plant/run.log 2>&1; rc=$?
  git -C /repo checkout -q -- .
  echo "$id $p $T rc=$rc $(( $(date +%s)-s ))s $(grep -c "^VIOLATION property=$p" /tmp/plant/run.log) violations"
  [ $rc = 1 ] || tail -3 /tmp/plant/run.log | cut -c1-300
done
