#!/bin/bash
# tools/seedbug.sh ID...: confirms planted bugs in a scratch copy of /repo: the patch applies,
# the demonstration passes without it and fails with it, the stable tests pass with it.
# With NOTEST=1 the test suite is left out.
set -u
HERE=$(cd "$(dirname "$0")/.." && pwd)
for id in "$@"; do
  D=$HERE/seeded/$id
  cd /repo; git diff --quiet || { echo "repo dirty"; exit 1; }
  bash "$D/demo.sh" >/tmp/seed_clean.log 2>&1; c=$?
  git apply "$D/patch.diff" || { echo "$id: does not apply"; continue; }
  bash "$D/demo.sh" >/tmp/seed_bug.log 2>&1; b=$?
  P=$(python3 -c "import json;print(json.load(open('$D/meta.json'))['property'])")
  python3 "$HERE/check.py" "$P" >/tmp/seed_check.log 2>&1; k=$?
  t=skipped
  [ -z "${NOTEST:-}" ] && t=$(bash /opt/vp/test.sh /tmp/seed_out.json 2>/dev/null | tail -1)
  git checkout -q -- .
  echo "$id: clean=$c bug=$b check($P)=$k tests=$t | $(tail -1 /tmp/seed_bug.log | cut -c1-150)"
done
