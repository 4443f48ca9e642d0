#!/bin/bash
# run.sh PROPERTY TIER: decides one property against /repo's working tree.
# Builds the symbolic executor (committed in engine/) and runs every harness
# function of the property.
cd "$(dirname "$0")" || exit 2
V=$(pwd)
export PATH=$PATH:/usr/local/go/bin:/usr/local/bin
export GOFLAGS=-mod=mod GOPROXY=off GOTOOLCHAIN=local GOWORK=off GOSUMDB=off GO111MODULE=on CGO_ENABLED=0
export HOME=${HOME:-/root}
# /repo ignores its go.mod: put it back where a checkout lacks it
for f in go.mod go.sum; do
	[ -e /repo/$f ] || cp /opt/vp/$f /repo/$f || exit 2
done
T=$(mktemp -d "${TMPDIR:-/tmp}/verif.XXXXXX") || exit 2
trap 'rm -rf "$T"' EXIT
(cd "$V/engine" && go build -o "$T/vengine" .) || exit 2
[ "$1" = build ] && exit 0
"$T/vengine" -verif "$V" -property "$1" -tier "${2:-quick}"
