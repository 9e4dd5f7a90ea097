#!/bin/bash
# run the checks against the planted bugs: runseeds.sh [ids...]. Applies to /repo and undoes it.
cd /verif
ids="$@"; [ -n "$ids" ] || ids=$(ls seeded)
for id in $ids; do
  p=$(python3 -c "import json;print(json.load(open('seeded/$id/meta.json'))['property'])")
  git -C /repo apply /verif/seeded/$id/patch.diff || { echo "$id: patch fails"; continue; }
  s=$SECONDS
  out=$(/opt/venv/bin/python vf/run.py $p --tier quick 2>&1); rc=$?
  git -C /repo checkout -- .
  echo "$id: property $p exit $rc ($((SECONDS-s)) s): $(echo "$out" | grep -m1 VIOLATION)"
done
