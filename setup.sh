#!/bin/bash
# Builds the verifier and the executable contracts once (every check builds them again, from cache).
cd "$(dirname "$0")"
export GOTOOLCHAIN=local GOFLAGS=-mod=mod GOPROXY=off GOWORK=off
mkdir -p evidence replay
d=$(mktemp -d)
(cd vcgen && go build -o "$d/vcgen" .) || exit 1
(cd harness && PATH=/opt/veriftools/go1.23.12/bin:$PATH go build -o "$d/harness" .) || exit 1
"$d/vcgen" -list -prop C01 >/dev/null || exit 1
rm -f "$d/vcgen" "$d/harness"; rmdir "$d"
