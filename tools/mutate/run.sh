#!/bin/bash
# run.sh OUT FROM TO STEP "CHECKS" FILE...: for each mutant FROM, FROM+STEP.. < TO of the files (relative to /repo): build, test,
# and run the checks until one reports a violation. OUT gets a line per mutant that compiles and passes the tests.
here=$(cd "$(dirname "$0")" && pwd); verif=$(cd "$here/../.." && pwd)
out=$1; from=$2; to=$3; step=$4; checks=$5; shift 5
. /opt/vp/env.sh
w=$(mktemp -d /tmp/mut.XXXXXX); cp -a /repo "$w/r"
cp -a "$verif/mc" "$verif/known_findings.txt" "$w/"; 
go build -C "$here" -o "$w/mutate" . || exit 2
list=$(cd "$w/r" && "$w/mutate" "$@")
sed -E 's#^module .*#module mc#' "$w/r/go.mod" > "$w/go.mod"
printf '\nrequire github.com/ipfs/go-ipld-git v0.0.0\nreplace github.com/ipfs/go-ipld-git => %s\n' "$w/r" >> "$w/go.mod"
cp "$w/r/go.sum" "$w/go.sum"
export MC_REPO=$w/r GOWORK=off
mkdir -p "$w/tmp"; export TMPDIR=$w/tmp
for ((i=from;i<to;i+=step)); do
  what=$(sed -n "$((i+1))p" <<<"$list"); [ -z "$what" ] && break
  git -C "$w/r" checkout -q -- .
  (cd "$w/r" && "$w/mutate" -apply $i "$@")

  (cd "$w/r" && timeout 60 go test -vet=off . >/dev/null 2>&1) || continue
  go build -C "$w/mc" -modfile="$w/go.mod" -o "$w/mcbin" . 2>/dev/null || { echo "NOBUILD $what" >> "$out"; continue; }
  killed=
  for c in $checks; do
    timeout 200 "$w/mcbin" -property $c -tier quick -budget ${MC_BUDGET:-12s} -seed 1 -evidence "$w/tmp/e.json" -replaydir "$w/tmp" -known "$w/known_findings.txt" -par ${PAR:-2} >"$w/tmp/o" 2>&1; rc=$?
    if [ $rc != 0 ]; then killed="$c rc=$rc"; break; fi
  done
  echo "${killed:-SURVIVED}	$what" >> "$out"
done
rm -rf -- "$w"
