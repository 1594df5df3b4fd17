#!/bin/bash
# Builds the harness once, to warm the build caches (checks rebuild it from /repo's tree).
cd "$(dirname "$0")/harness" || exit 1
export HOME="${HOME:-/root}" PATH="/usr/local/go/bin:$PATH" GOTOOLCHAIN=local GOPROXY=off GOWORK=off GOFLAGS=-mod=readonly
D=$(mktemp -d /tmp/vmon-setup-XXXXXX); trap 'rm -rf "$D"' EXIT
go build -o "$D/vmon" ./vmon || exit 1
if [ -s race-props.txt ]; then go build -race -o "$D/vmon-race" ./vmon || exit 1; fi
echo '{"Replace":{"/repo/uax14/uax14classes.go":"'"$PWD/uax14/uax14classes.go.txt"'"}}' >"$D/ov.json"
go build -tags uax14 -overlay "$D/ov.json" -o "$D/vmon-l" ./vmon || exit 1
go build -race -tags uax14 -overlay "$D/ov.json" -o "$D/vmon-l-race" ./vmon || exit 1
for G in grapheme uax29 emoji uax14; do go build -o "$D/gen" github.com/npillmayer/uax/$G/internal/generator || exit 1; done
go build -o "$D/gen" github.com/npillmayer/uax/bidi/internal/gen || exit 1
exit 0
