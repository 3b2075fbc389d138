#!/bin/bash
# bash tools/catch.sh [id...]: apply each planted change to a scratch copy of /repo, run the check of its property on it, say what it reports
cd /verif
ids=("$@"); [ ${#ids[@]} -eq 0 ] && ids=($(ls seeded))
for id in "${ids[@]}"; do
  p=$(python3 -c "import json;print(json.load(open('seeded/$id/meta.json'))['property'])")
  rm -rf "/tmp/w/catch_$id"; mkdir -p "/tmp/w/catch_$id"; git -C /repo archive HEAD | tar -x -C "/tmp/w/catch_$id"
  (cd "/tmp/w/catch_$id" && git init -q . && git apply "/verif/seeded/$id/patch.diff") || echo "$id: PATCH DOES NOT APPLY"
  s=$(date +%s)
  VERIF_REPO="/tmp/w/catch_$id" VERIF_EVIDENCE=/tmp/w/ev python3-vt run.py "$p" >"/tmp/w/catch_$id.log" 2>&1; rc=$?
  echo "$id $p rc=$rc $(( $(date +%s) - s ))s $(grep -c '^VIOLATION' /tmp/w/catch_$id.log) violations: $(grep -m1 -A1 '^VIOLATION' /tmp/w/catch_$id.log | tail -1 | cut -c1-140)"
  rm -rf "/tmp/w/catch_$id"
done
