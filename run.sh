#!/bin/bash
# usage: run.sh <property> [quick|thorough|replay FILE] [part]
# Builds the monitors against /repo's working tree and runs those of one property.
ID="$1"; MODE="${2:-${VERIF_TIER:-quick}}"
HERE="$(cd "$(dirname "$0")" && pwd)"
SEED="${VERIF_SEED:-1}"
export HOME="${HOME:-/root}"
export PATH=/opt/veriftools/go1.23.12/bin:$PATH
export GOTOOLCHAIN=local GOPROXY=off GOFLAGS=-mod=mod GO111MODULE=on CGO_ENABLED=1
export GOMODCACHE=/root/go/pkg/mod GOCACHE=/root/.cache/go-build
BIN="$(mktemp -d /tmp/vmonbin.XXXXXX)" || exit 2
trap '/bin/rm -rf "$BIN"' EXIT
cd "$HERE/harness" || exit 2
cp go.mod go.sum "$BIN/" || exit 2
bld() { go build -modfile="$BIN/go.mod" "$@" >"$BIN/build.log" 2>&1 || { cat "$BIN/build.log" >&2; echo "build of the monitors failed" >&2; exit 2; }; }
if [ "$ID" = setup ]; then # warms the build cache with both builds
  bld -o "$BIN/vmon" . && bld -race -o "$BIN/vmon.race" . && exit 0
  exit 2
fi
bld -o "$BIN/vmon" .
RACE=""
if "$BIN/vmon" hasrace -prop "$ID"; then
  bld -race -o "$BIN/vmon.race" .
  RACE="$BIN/vmon.race"
fi
cd "$HERE"
# the prover needs at least as many circuit variables as there are CPUs
[ "$(nproc)" -gt 30 ] && taskset -cp 0-15 $$ >/dev/null 2>&1
ARGS=(run -prop "$ID" -seed "$SEED" -plain "$BIN/vmon" -racebin "$RACE" -verif "$HERE")
case "$MODE" in
  replay) "$BIN/vmon" "${ARGS[@]}" -replay "$3" ;;
  *) "$BIN/vmon" "${ARGS[@]}" -tier "$MODE" ${3:+-part "$3"} ;;
esac
exit $?
