#!/bin/bash
# build.sh DIR: instrument /repo's working tree and build the simulator into
# DIR/h.test. Everything it writes is below DIR.
set -e
B=$1
HERE=$(cd "$(dirname "$0")/.." && pwd)
REPO=${VSIM_REPO:-/repo}
[ -f /opt/vp/env.sh ] && . /opt/vp/env.sh >/dev/null 2>&1
export GOFLAGS=-mod=mod GOPROXY=off GOTOOLCHAIN=local
mkdir -p "$B"; rm -rf "$B/vsim" "$B/ts" "$B/ws" "$B/instr"
cp -r "$HERE/sim" "$B/vsim"
cp -r "$HERE/instr" "$B/instr"
(cd "$B/instr" && go build -o "$B/vinstr" .)
(cd "$REPO" && "$B/vinstr" -mod "$REPO" -out "$B/ts" -shim "$HERE/sim" -pt -reset -skip cmd -literals "$HERE/tools/literals.json")
G=$(cd "$REPO" && go list -m -f '{{.Dir}}' github.com/gorilla/websocket)
(cd "$G" && "$B/vinstr" -mod "$G" -out "$B/ws" -shim "$HERE/sim" -pkgs .)
{ echo "module vsim"; echo; echo "go 1.25"; echo; sed -n '/^require (/,/^)/p' "$REPO/go.mod"
echo 'require github.com/signal-golang/textsecure v0.0.0-00010101000000-000000000000'
echo "replace github.com/signal-golang/textsecure => $B/ts"
echo "replace github.com/gorilla/websocket => $B/ws"; sed -n '/^replace/p' "$REPO/go.mod"; } > "$B/vsim/go.mod"
cp "$REPO/go.sum" "$B/vsim/go.sum"
cd "$B/vsim" && go test -c -vet=off -o "$B/h.test" ./h
(cd "$B/vsim" && echo "$(go list -m -f '{{.Dir}}' github.com/nanu-c/zkgroup)/lib") > "$B/libdir"
