#!/bin/bash
# try_seeds.sh [ID...]: run the check of each planted bug's property against a patched scratch copy
cd "$(dirname "$0")/.."
for id in ${*:-$(ls seeded)}; do
  w=/tmp/seed_$id; rm -rf "/tmp/seed_$id"; cp -a /repo "$w"; git -C "$w" apply "$PWD/seeded/$id/patch.diff" || echo "PATCH FAILS $id"
  p=$(python3 -c "import json;print(json.load(open('seeded/$id/meta.json'))['property'])")
  python3 check.py --property $p --tier quick --repo "$w" --no-evidence > /tmp/seed_$id.log 2>&1; rc=$?
  echo "$id: rc=$rc $(grep -c VIOLATION /tmp/seed_$id.log) $(grep broken: /tmp/seed_$id.log | sort | uniq -c | sort -rn | head -2 | tr '\n' ';') $(tail -1 /tmp/seed_$id.log | cut -c1-150)"
  rm -rf "/tmp/seed_$id"
done
