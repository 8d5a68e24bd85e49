#!/bin/bash
# Builds the analyzer once, so that the checks find a warm build cache.
here=$(cd "$(dirname "$0")" && pwd)
export HOME=${HOME:-/root}
export GOTOOLCHAIN=local GOPROXY=off
mkdir -p "$here/.build" "$here/evidence"
cd "$here/analyzer" && GOFLAGS=-mod=vendor go build -o "$here/.build/warm" . && rm -f "$here/.build/warm"
cd /repo && GOFLAGS=-mod=mod go list -export -deps ./... >/dev/null 2>&1
exit 0
