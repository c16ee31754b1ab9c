#!/bin/bash
# catch.sh [ID...]: runs each planted bug's property check against a scratch copy with
# the bug, and says whether it was caught. Not used by any check.
here=$(cd "$(dirname "$0")/.." && pwd)
ids=("$@"); [ ${#ids[@]} = 0 ] && ids=($(ls "$here/seeded"))
for id in "${ids[@]}"; do
  t=$(mktemp -d /tmp/catch.XXXXXX); cp -a /repo "$t/r"
  git -C "$t/r" apply "$here/seeded/$id/patch.diff" || { echo "$id PATCH"; rm -rf -- "$t"; continue; }
  p=$(python3 -c "import json;print(json.load(open('$here/seeded/$id/meta.json'))['property'])")
  s=$(date +%s)
  out=$(MC_REPO=$t/r bash "$here/check.sh" $p 2>&1); rc=$?
  echo "$id $p rc=$rc $(( $(date +%s) - s ))s $(grep -m1 '^VIOLATION' <<<"$out" | cut -c1-100)"
  rm -rf -- "$t"
done
