#!/bin/bash
# check.sh PROPERTY [--replay FILE]
# Builds the checker against /repo's working tree and decides one property.
# The tier comes from VERIF_TIER (quick by default), or from --tier.
set -u
here=$(cd "$(dirname "$0")" && pwd)
prop=$1; shift
tier=${VERIF_TIER:-quick}
replay=
extra=()
while [ $# -gt 0 ]; do
  case $1 in
    --replay) replay=$2; shift 2;;
    --tier) tier=$2; shift 2;;
    *) extra+=("$1"); shift;;
  esac
done
[ -f /opt/vp/env.sh ] && . /opt/vp/env.sh
export GOFLAGS=-mod=mod GOPROXY=off GOTOOLCHAIN=local GOWORK=off
repo=${MC_REPO:-/repo}; export MC_REPO=$repo
tmp=$(mktemp -d /tmp/mc.XXXXXXXX) || exit 2
trap 'rm -rf -- "$tmp"' EXIT
export TMPDIR=$tmp
sed -E 's#^module .*#module mc#' "$repo/go.mod" > "$tmp/go.mod" &&
printf '\nrequire github.com/ipfs/go-ipld-git v0.0.0\nreplace github.com/ipfs/go-ipld-git => %s\n' "$repo" >> "$tmp/go.mod" &&
cp "$repo/go.sum" "$tmp/go.sum" || exit 2
flags=()
case $prop in
  C16) mode=; . "$here/instrument.sh";;
  C24) mode=steps; . "$here/instrument.sh";;
esac
build() { go build -C "$here/mc" -modfile="$tmp/go.mod" "${flags[@]}" -o "$tmp/mc" .; }
if [ "$prop" = C16 ]; then
  # code that cannot be instrumented in full is instrumented less
  build 2>/dev/null || { instrument plain && build 2>/dev/null; } || { flags=(); build; }
elif [ "$prop" = C24 ]; then
  build 2>/dev/null || { flags=(); build; }
else
  build
fi || { echo "mc: build failed" >&2; exit 2; }
if [ -n "$replay" ]; then
  "$tmp/mc" -known "$here/known_findings.txt" -replay "$replay"
  exit $?
fi
budget=${MC_BUDGET:-}
[ -z "$budget" ] && { [ "$tier" = thorough ] && budget=6h || budget=240s; }
mkdir -p "$here/evidence" "$here/evidence/replay"
"$tmp/mc" -property "$prop" -tier "$tier" -budget "$budget" -seed "${VERIF_SEED:-1}" \
  -evidence "$here/evidence/$prop.json" -replaydir "$here/evidence/replay" -known "$here/known_findings.txt" "${extra[@]}"
exit $?
