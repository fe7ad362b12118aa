#!/bin/bash
# Runs the test beside this file inside package PKG of the repository.
d=$(cd "$(dirname "$0")" && pwd)
repo=$PWD
. /opt/vp/env.sh
cd "$repo"
export LD_LIBRARY_PATH="$(go list -m -f '{{.Dir}}' github.com/nanu-c/zkgroup)/lib"
t=$(mktemp -d)
trap 'rm -rf "$t"' EXIT
r=""
for f in "$d"/*_test.go; do
  r="$r${r:+,}\"$repo/PKG/$(basename "$f" _test.go)_demo_test.go\":\"$f\""
done
# the package's own tests do not all compile
for f in "$repo"/PKG/*_test.go; do
  [ -e "$f" ] && r="$r,\"$f\":\"\""
done
echo "{\"Replace\":{$r}}" >"$t/o.json"
TMPDIR=$t go test -overlay "$t/o.json" -vet=off -count=1 -timeout 250s -run '^TestDemo' ./PKG
