#!/bin/bash
# usage: check.sh PROPERTY quick|thorough
export GOFLAGS=-mod=mod GOSUMDB=off GONOSUMDB='*' GOPROXY=off GOTOOLCHAIN=local GOWORK=off HOME=${HOME:-/root}
d=$(cd "$(dirname "$0")" && pwd)
export GV_CONTRACTS=$d/contracts
w=$(mktemp -d)
trap 'rm -rf "$w"' EXIT
(cd "$d/gv" && go build -o "$w/gv" .) || exit 2
unset GOFLAGS
export TMPDIR=$w
"$w/gv" check "$1" "${2:-quick}"
