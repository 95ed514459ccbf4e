#!/bin/bash
# usage: plant.sh ID...   verifies planted bugs in a scratch copy of /repo:
# patch applies, builds, stable tests pass, demo passes without and fails with
W=$(mktemp -d /tmp/plant.XXXXXX)
trap 'rm -rf "$W"' EXIT
for id in "$@"; do
  d=/verif/seeded/$id
  rm -rf "$W/repo"; cp -a /repo "$W/repo"
  cd "$W/repo" || exit 2
  git checkout -q -- .
  mkdir -p "$W/demo"; rm -rf "$W/demo/x"; cp -a "$d" "$W/demo/x"
  rm -f "$W/demo/x/patch.diff" "$W/demo/x/meta.json"
  ok=1
  timeout 300 bash "$W/demo/x/demo.sh" >"$W/log0" 2>&1 || { echo "$id: demo fails without patch"; tail -5 "$W/log0"; ok=0; }
  git apply "$d/patch.diff" || { echo "$id: does not apply"; continue; }
  timeout 300 bash "$W/demo/x/demo.sh" >"$W/log1" 2>&1 && { echo "$id: demo passes with patch"; ok=0; }
  # run tests: test.sh works on /repo, so run pytest here
  PATH=/opt/venv/bin:$PATH PYTHONDONTWRITEBYTECODE=1 PYTHONPATH=$W/repo/src_py \
    timeout 600 /opt/venv/bin/python -m pytest -q -p hat.doit.pytest --unit --perf \
    -p no:cacheprovider --timeout=120 --basetemp="$W/bt" \
    --ignore=test_pytest/test_common/test_collection.py \
    --ignore=test_pytest/test_common/test_collection_perf.py \
    --ignore=test_pytest/test_common/test_subscription.py \
    --ignore=test_pytest/test_common/test_subscription_perf.py >"$W/log2" 2>&1 || { echo "$id: tests fail"; grep -E "^(FAILED|ERROR)" "$W/log2" | head -5; tail -2 "$W/log2"; ok=0; }
  echo "$id: $([ $ok = 1 ] && echo fine || echo BAD); demo: $(tail -1 "$W/log1")"
done
