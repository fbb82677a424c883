#!/bin/bash
# development aid: run the check of every planted bug (or the given ones) against a scratch copy with the bug
cd /verif
for id in ${@:-$(ls seeded)}; do
  wt=/tmp/bug-$id; rm -rf "$wt"; cp -a /repo "$wt"
  git -C "$wt" apply /verif/seeded/$id/patch.diff || { echo "$id does not apply"; continue; }
  prop=$(python3 -c "import json;print(json.load(open('/verif/seeded/$id/meta.json'))['property'])")
  s=$(date +%s); VREPO=$wt timeout 900 python3 check.py $prop > /tmp/bug-$id.log 2>&1; rc=$?
  echo "$id $prop rc=$rc $(grep -c ^VIOLATION /tmp/bug-$id.log) violations $(( $(date +%s) - s )) s: $(grep -A1 -m1 ^VIOLATION /tmp/bug-$id.log | tail -1 | cut -c1-150)"
  rm -rf "$wt"
done
