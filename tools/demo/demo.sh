#!/bin/bash
# runs the tests beside this file inside the package named in the file "pkg"
d=$(cd "$(dirname "$0")" && pwd)
repo=$(pwd)
export HOME=${HOME:-/root} GOTOOLCHAIN=local GOPROXY=off GOWORK=off GOFLAGS="-mod=readonly -buildvcs=false"
export PATH=/opt/veriftools/go1.27.3/bin:$PATH
pkg=$(cat "$d/pkg")
w=$(mktemp -d)
trap 'rm -rf "$w"' EXIT
printf '{"Replace": {"%s/%s/zz_demo_test.go": "%s/demo_test.go.txt"}}' "$repo" "$pkg" "$d" > "$w/o.json"
cp "$d/demo_test.go.txt" "$w/demo_test.go"
printf '{"Replace": {"%s/%s/zz_demo_test.go": "%s/demo_test.go"}}' "$repo" "$pkg" "$w" > "$w/o.json"
cd "$repo" && timeout 240 go test -vet=off -count=1 -overlay "$w/o.json" -run '^TestDemo' "./$pkg"
