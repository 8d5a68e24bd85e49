#!/bin/bash
# check.sh <property>: builds the analyzer from /verif/analyzer and decides the
# property on /repo's current source.  Exit 0 or 1 (with a VIOLATION line).
here=$(cd "$(dirname "$0")" && pwd)
export HOME=${HOME:-/root}
export PATH=/usr/local/sbin:/usr/local/bin:/usr/sbin:/usr/bin:/sbin:/bin:$PATH
export GOTOOLCHAIN=local GOPROXY=off
id=$1
out=$here/.build
mkdir -p "$out"
bin=$(mktemp "$out/sc.XXXXXX") || exit 2
trap 'rm -f "$bin"' EXIT
if ! (cd "$here/analyzer" && GOFLAGS=-mod=vendor go build -o "$bin" .); then
	echo "the analyzer does not build"
	exit 2
fi
GOFLAGS=-mod=mod VERIF_ROOT=$here "$bin" "$id"
