#!/bin/bash
# development aid: runbugs.sh [id...]: run each planted bug's check against a scratch copy of /repo with the bug applied (SLV_REPO)
cd "$(dirname "$0")/.."
for id in ${@:-$(ls seeded)}; do
  p=$(python3 -c "import json;print(json.load(open('seeded/$id/meta.json'))['property'])")
  d=$(mktemp -d /tmp/rbXXXXXX); cp -a /repo/src $d/src
  (cd $d && patch -s -p1 < /verif/seeded/$id/patch.diff) || { echo "$id does not apply"; continue; }
  s=$(date +%s)
  SLV_REPO=$d ./check.sh $p quick --no-evidence > /tmp/rb_$id.log 2>&1; rc=$?
  rm -rf "$d"
  echo "$id $p rc=$rc $(( $(date +%s) - s ))s $(grep -c '^VIOLATION' /tmp/rb_$id.log) violations: $(grep -A1 '^VIOLATION' /tmp/rb_$id.log | sed -n 2p)"
done
