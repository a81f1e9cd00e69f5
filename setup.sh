#!/bin/bash
# nothing to install: every check builds from source; this proves that it can
here=$(cd "$(dirname "$0")" && pwd)
export GOFLAGS=-mod=mod GOPROXY=off GOTOOLCHAIN=local GOWORK=off
w=$(mktemp -d /tmp/vsetup.XXXXXX) || exit 1
trap 'rm -rf -- "$w"' EXIT
cd "$here/mc/rewrite" && go build -o "$w/rewrite" . && "$w/rewrite" -src /repo -out "$w"
