#!/bin/bash
# runs the check of each planted bug (all, or those named) against a copy of /repo with the bug applied
V=$(cd "$(dirname "$0")/.." && pwd); S=/tmp/tryrepo
cd "$V/seeded" || exit 2
for id in ${@:-*}; do
  [ -f $id/patch.diff ] || continue
  [ -d $S ] && find $S -mindepth 0 -delete; git clone -q /repo $S && git -C $S apply $V/seeded/$id/patch.diff || { echo "$id: patch does not apply"; continue; }
  p=$(python3 -c "import json;print(json.load(open('$id/meta.json'))['property'])")
  t0=$(date +%s); out=$(cd $V && VP_REPO=$S VP_EVIDENCE=/tmp/tryev ./check $p 2>&1); rc=$?
  echo "$id $p rc=$rc $(( $(date +%s)-t0 ))s $(echo "$out" | grep -m1 VIOLATION)"
done
find $S -mindepth 0 -delete
