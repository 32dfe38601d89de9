#!/bin/bash
# Rebuilds the deterministic-simulation binary from /repo's current working tree.
# usage: build.sh   -> .build/simtest
set -euo pipefail
V="$(cd "$(dirname "${BASH_SOURCE[0]}")" && pwd)"
R="${VERIF_REPO:-/repo}"
B="$V/.build"
mkdir -p "$B"
exec 9>"$B/.lock"
flock 9
export GOTOOLCHAIN=local GOPROXY=off GOSUMDB=off GONOSUMDB='*' GONOSUMCHECK=1 GOENV=off
export GOMODCACHE="${GOMODCACHE:-/root/go/pkg/mod}" GOCACHE="${GOCACHE:-/root/.cache/go-build}"
unset GOFLAGS GODEBUG GOEXPERIMENT GOOS GOARCH
export CGO_ENABLED=0
( cd "$V/vgen" && GOWORK=off GOFLAGS=-mod=mod go build -o "$B/vgen" . )
"$B/vgen" "$R" "$V" "$B/ws"
cd "$B/ws"
GOWORK="$B/ws/go.work" go test -c -o "$B/simtest.new" verifharness
mv -f "$B/simtest.new" "$B/simtest"
