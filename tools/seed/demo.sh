#!/bin/bash
# Exit 0 while the property holds in the tree of the current directory.
repo=$PWD
d=$(cd "$(dirname "$0")" && pwd) || exit 2
t=$(mktemp -d /tmp/demo.XXXXXX) || exit 2
trap 'rm -rf "$t"' EXIT
cp -r "$d"/*.go "$d"/jwx "$t"/ || exit 2
cp "$repo"/go.sum "$t"/go.sum 2>/dev/null || cp /opt/vp/go.sum "$t"/go.sum
cat > "$t/go.mod" <<M
module demo

go 1.23.0

require (
	github.com/golang-jwt/jwt v3.2.2+incompatible
	github.com/google/go-querystring v1.2.0
	github.com/lestrrat/go-jwx v0.0.0
	github.com/lyokato/goidc v0.0.0
)

replace github.com/lyokato/goidc => $repo

replace github.com/lestrrat/go-jwx => ./jwx
M
cd "$t" || exit 2
export GOFLAGS=-mod=mod GOPROXY=off GOSUMDB=off GOTOOLCHAIN=local GOWORK=off GO111MODULE=on CGO_ENABLED=0
if [ -e "$d/race" ]; then
	CGO_ENABLED=1 go build -race -o demo . || exit 3
	export GORACE="exitcode=1 halt_on_error=1"
else
	go build -o demo . || exit 3
fi
timeout 120 ./demo
