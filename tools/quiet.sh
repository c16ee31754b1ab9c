#!/bin/bash
# quiet.sh [NAME...]: runs every check against scratch copies with a refactoring that
# keeps the behaviour (tools/refactors); every check must stay quiet. CHECKS="C01 C16"
# limits the checks. Not used by any check.
here=$(cd "$(dirname "$0")/.." && pwd)
names=("$@"); [ ${#names[@]} = 0 ] && names=($(cd "$here/tools/refactors" && ls | sed 's/\.diff$//'))
checks=${CHECKS:-$(seq -f "C%02g" 1 25)}
for n in "${names[@]}"; do
  t=$(mktemp -d /tmp/quiet.XXXXXX); cp -a /repo "$t/r"
  git -C "$t/r" apply "$here/tools/refactors/$n.diff" || { echo "$n PATCH"; rm -rf -- "$t"; continue; }
  for p in $checks; do
    s=$(date +%s)
    out=$(MC_REPO=$t/r timeout 900 bash "$here/check.sh" $p 2>&1); rc=$?
    d=$(( $(date +%s) - s ))
    [ $rc = 0 ] && ! grep -q '^VIOLATION' <<<"$out" && [ $d -lt 300 ] || { echo "$n $p rc=$rc ${d}s"; grep -v '^KNOWN' <<<"$out" | cut -c1-500 | head -5; }
  done
  echo "$n done"
  rm -rf -- "$t"
done
