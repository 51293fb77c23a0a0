#!/bin/bash
# caught.sh [bug...]: runs the check of each planted bug's property on a scratch copy of /repo with the bug
cd /verif
for b in ${@:-$(ls seeded)}; do
  p=$(python3 -c "import json;print(json.load(open('seeded/$b/meta.json'))['property'])")
  d=$(mktemp -d /tmp/caught-XXXXXX)
  cp -a /repo $d/repo; git -C $d/repo checkout -q -- .
  git -C $d/repo apply /verif/seeded/$b/patch.diff || { echo "$b does not apply"; continue; }
  out=$(VERIF_REPO=$d/repo python3 run.py $p 2>&1); rc=$?
  rm -rf "$d"
  echo "$b $p rc=$rc $(echo "$out" | grep -E 'VIOLATION|held' | tail -1) $(echo "$out" | grep '"what"' | cut -c1-120)"
done
