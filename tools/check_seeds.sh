#!/bin/bash
# check_seeds.sh [id ...]: runs the check of each planted bug's property against it (applied to /repo and undone again).
cd /verif || exit 3
[ -z "$(git -C /repo status --porcelain)" ] || { echo "/repo is not clean"; exit 3; }
[ $# -gt 0 ] || set -- $(ls seeded)
for id in "$@"; do
  p=$(python3 -c "import json;print(json.load(open('seeded/$id/meta.json'))['property'])")
  git -C /repo apply "/verif/seeded/$id/patch.diff" || { echo "$id: patch does not apply"; continue; }
  s=$(date +%s)
  bash check.sh ${CHECK:-$p} quick > /tmp/w/cs.$id.log 2>&1; rc=$?
  git -C /repo checkout -q -- .
  echo "$id ${CHECK:-$p} rc=$rc $(( $(date +%s) - s ))s $(grep -m1 VIOLATION /tmp/w/cs.$id.log)"
  if [ -z "$CHECK" ]; then
    cls=$(grep -m1 -o 'replay=.*' /tmp/w/cs.$id.log | sed -E 's/.*\/C[0-9]+-(.*)-[0-9]+\.json/\1/')
    touch tools/seed_results.txt
    { grep -v "^$id " tools/seed_results.txt; echo "$id $p $rc ${cls:--}"; } | sort > /tmp/w/sr && cp /tmp/w/sr tools/seed_results.txt
  fi
done
