#!/bin/bash
# usage: caught.sh ID...   applies planted bug to /repo, runs the check of its
# property and undoes the change
for id in "$@"; do
  p=$(/usr/bin/python3 -c "import json;print(json.load(open('/verif/seeded/$id/meta.json'))['property'])")
  git -C /repo apply "/verif/seeded/$id/patch.diff" || continue
  t=$SECONDS
  out=$(timeout 900 /verif/check.sh "$p" 2>&1); rc=$?
  git -C /repo checkout -q -- .
  echo "$id: rc=$rc $((SECONDS - t))s $(echo "$out" | grep VIOLATION | head -1) $(echo "$out" | grep -v VIOLATION | tail -1 | cut -c1-150)"
done
