# sourced by check.sh for C16 and C24: builds an instrumented copy of the package in
# $tmp, and for C16 a second checker under the race detector.
instrument() {
  rm -rf -- "$tmp/instr/out"; mkdir -p "$tmp/instr/out" &&
  "$tmp/instr/instr" "$repo" "$tmp/instr/out" github.com/ipfs/go-ipld-git "$tmp/instr/mcsync.go" "$@" || { echo "mc: instrumenting failed" >&2; exit 2; }
  local tag=mcsched; [ "${1:-}" = steps ] && tag=mcsteps
  flags=(-overlay "$tmp/instr/out/overlay.json" -tags $tag)
}
mkdir -p "$tmp/instr" &&
go build -C "$here/instr" -o "$tmp/instr/instr" . &&
cp "$here/instr/shim/mcsync.go.txt" "$tmp/instr/mcsync.go" && instrument $mode || { echo "mc: instrumenting failed" >&2; exit 2; }
[ -n "$mode" ] ||
go build -C "$here/mc" -modfile="$tmp/go.mod" -race -o "$tmp/mc.race" . || { echo "mc: build with the race detector failed" >&2; exit 2; }
[ -n "$mode" ] || export MC_RACE_BIN=$tmp/mc.race
