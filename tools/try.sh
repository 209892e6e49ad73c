#!/bin/bash
# try.sh SEED-ID... : runs the quick check of the seed's property on a scratch copy of /repo with the seed applied.
for id in "$@"; do
  d=/verif/seeded/$id; w=/tmp/try.$id
  rm -rf "$w"; mkdir "$w"; git -C /repo archive HEAD | tar -x -C "$w"
  (cd "$w" && git init -q . && git apply "$d/patch.diff") || { echo "$id: patch does not apply"; continue; }
  p=$(python3 -c "import json;print(json.load(open('$d/meta.json'))['property'])")
  cp evidence/$p.json /tmp/try.ev 2>/dev/null
  OBAKE_REPO=$w python3 check.py $p quick > /tmp/try.$id.log 2>&1; rc=$?
  cp /tmp/try.ev evidence/$p.json 2>/dev/null
  echo "$id $p rc=$rc $(grep -c VIOLATION /tmp/try.$id.log) $(grep -m1 violated /tmp/try.$id.log) $(tail -1 /tmp/try.$id.log | cut -c1-9)"
  rm -rf "$w"
done
