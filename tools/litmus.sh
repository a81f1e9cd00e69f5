#!/bin/bash
# litmus.sh: a program of Go constructs (generics, select, timers, contexts, sync.*, atomics ...) is added to a scratch copy of
# the repository and run twice: by the Go runtime, and rewritten under the controlled runtime. Both must print the same.
here=$(cd "$(dirname "$0")/.." && pwd)
export GOFLAGS=-mod=mod GOPROXY=off GOTOOLCHAIN=local GOWORK=off
w=$(mktemp -d /tmp/litmus.XXXXXX); trap 'rm -rf -- "$w"' EXIT
cp -a "${VERIF_REPO:-/repo}" "$w/repo" && cp "$here/mc/litmus/litmus.go.txt" "$w/repo/memcache/zz_litmus.go" || exit 1
mkdir "$w/repo/litmus"
cat >"$w/repo/litmus/main.go" <<'G'
package main

import "github.com/QuangTung97/go-memcache/memcache"

func main() { println(memcache.Litmus()) }
G
a=$(cd "$w/repo" && go run ./litmus 2>&1)
rm -rf -- "$w/repo/litmus"
mkdir "$w/o"
(cd "$here/mc/rewrite" && go build -o "$w/rewrite" .) && "$w/rewrite" -src "$w/repo" -out "$w/o" || exit 1
cp -r "$here/mc/harness" "$here/mc/vrt" "$w/o/"
printf '\nreplace vrt => ../vrt\n\nreplace github.com/QuangTung97/go-memcache => ../subject\n' >>"$w/o/harness/go.mod"
cat >"$w/o/harness/zz_litmus.go" <<'G'
package main

import "github.com/QuangTung97/go-memcache/memcache"

func init() {
	register(&Scenario{Name: "litmus", Own: []string{"LIT"}, Props: []string{"LIT"}, Liveness: true, Body: func(hp **H) {
		h := newH(NetCfg{N: 1})
		*hp = h
		h.fail("LIT", memcache.Litmus())
	}})
}
G
b=$(cd "$w/o/harness" && go build -o "$w/mc" . && cd "$w" && ./mc -prop LIT -replays "$w" | sed -n 's/^LIT: oracle in scenario litmus ([^)]*): //p')
[ -n "$a" ] && [ "$a" = "$b" ] && { echo "same: $a"; exit 0; }
printf 'differ:\n%s\n%s\n' "$a" "$b"
exit 1
