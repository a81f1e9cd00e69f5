#!/bin/bash
# builds the program beside this file against the tree in the current directory and runs it
here=$(cd "$(dirname "$0")" && pwd)
repo=$(pwd)
w=$(mktemp -d /tmp/demo.XXXXXX)
trap 'rm -rf -- "$w"' EXIT
cp "$here"/*.go "$w"/
cat >"$w/go.mod" <<M
module demo

go 1.21

require github.com/QuangTung97/go-memcache v0.0.0

replace github.com/QuangTung97/go-memcache => $repo
M
cd "$w" || exit 9
export GOFLAGS=-mod=mod GOPROXY=off GOTOOLCHAIN=local GOWORK=off
go build $DEMO_BUILD_FLAGS -o demo . || exit 9
timeout 250 ./demo
