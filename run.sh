#!/bin/bash
# usage: run.sh PROPERTY quick|thorough [extra vmon flags]
# Builds the harness against /repo's current working tree and runs one monitor.
set -u
VERIF=$(cd "$(dirname "$0")" && pwd)
PROP=$1; TIER=${2:-${VERIF_TIER:-quick}}; shift; shift 2>/dev/null
export HOME="${HOME:-/root}" PATH="/usr/local/go/bin:$PATH" LANG=C.UTF-8 LC_ALL=C.UTF-8
export GOTOOLCHAIN=local GOPROXY=off GOFLAGS=-mod=readonly GOWORK=off GONOSUMDB=* GONOSUMCHECK=1 GOFLAGS=-mod=readonly
SEED=${VERIF_SEED:-1}
BIN=$(mktemp -d /tmp/vmon-bin-XXXXXX) || exit 3
trap 'rm -rf "$BIN"' EXIT
RACE=""
case " $(cat "$VERIF/harness/race-props.txt" 2>/dev/null | tr '\n' ' ') " in *" $PROP "*) RACE=-race ;; esac
cd "$VERIF/harness" || exit 3
fail() { cat "$BIN/build.log" >&2; echo "harness build failed" >&2; exit 3; }
build() { go build $RACE "$@" -o "$BIN/vmon" ./vmon 2>"$BIN/build.log"; }
M=github.com/npillmayer/uax
case $PROP in
L0* | S07)
  # package uax14 lacks its class table: lay one over it (or, if it does not fit, what the package's own generator writes)
  echo '{"Replace":{"/repo/uax14/uax14classes.go":"'"$VERIF/harness/uax14/uax14classes.go.txt"'"}}' >"$BIN/ov.json"
  if ! build -tags uax14 -overlay "$BIN/ov.json"; then
    mkdir -p "$BIN/gp/etc" "$BIN/tab"
    awk '!/^#/{printf "%s..%s;%s\n",$1,$2,$3}' ref/data/linebreak.txt >"$BIN/gp/etc/LineBreak.txt"
    go build -o "$BIN/gen" $M/uax14/internal/generator 2>"$BIN/build.log" || fail
    (cd "$BIN/tab" && GOPATH="$BIN/gp" "$BIN/gen") >"$BIN/build.log" 2>&1 || fail
    echo '{"Replace":{"/repo/uax14/uax14classes.go":"'"$BIN/tab/uax14classes.go"'"}}' >"$BIN/ov.json"
    build -tags uax14 -overlay "$BIN/ov.json" || fail
  fi ;;
U01)
  build || fail
  go build -o "$BIN/tablegen" $M/internal/tablegen 2>"$BIN/build.log" || fail ;;
U03 | U04)
  build || fail
  go build -o "$BIN/tablegen" $M/internal/tablegen 2>"$BIN/build.log" || fail
  for G in grapheme uax29 emoji uax14; do
    go build -o "$BIN/gen-$G" $M/$G/internal/generator 2>"$BIN/build.log" || fail
  done
  go build -o "$BIN/gen-brackets" $M/bidi/internal/gen 2>"$BIN/build.log" || fail ;;
*) build || fail ;;
esac
"$BIN/vmon" -prop "$PROP" -tier "$TIER" -seed "$SEED" -verif "$VERIF" "$@"
