#!/bin/bash
# check.sh <property> [quick|thorough]   or   check.sh --replay <file>
# Rebuilds the model checker from /repo's working tree and decides one property.
set -u
here=$(cd "$(dirname "$0")" && pwd)
repo=${VERIF_REPO:-/repo}
export GOFLAGS=-mod=mod GOPROXY=off GOTOOLCHAIN=local GOWORK=off GOMAXPROCS=${GOMAXPROCS:-8}
export HOME=${HOME:-/root}
work=$(mktemp -d /tmp/vcheck.XXXXXX) || exit 4
trap 'rm -rf -- "$work"' EXIT
fail() { echo "INTERNAL: $1"; exit 3; }

prop=${1:-}
tier=${2:-quick}
[ -n "$prop" ] || fail "usage: check.sh <property> [tier]"

(cd "$here/mc/rewrite" && go build -o "$work/rewrite" .) || fail "cannot build the rewriter"
"$work/rewrite" -src "$repo" -out "$work" || fail "cannot rewrite the repository"
mkdir "$work/sim" "$work/real" || fail "scratch"
for m in sim real; do
	cp -r "$here/mc/harness" "$work/$m/harness" || fail "copy"
done
cp -r "$here/mc/vrt" "$work/sim/vrt" || fail "copy"
[ -d "$here/mc/vrtreal" ] && cp -r "$here/mc/vrtreal" "$work/real/vrt"
mv "$work/subject" "$work/sim/subject" && mv "$work/plain" "$work/real/subject" || fail "copy"
for m in sim real; do
	printf '\nreplace vrt => ../vrt\n\nreplace github.com/QuangTung97/go-memcache => ../subject\n' >>"$work/$m/harness/go.mod"
done
(cd "$work/sim/harness" && go build -o "$work/mc" .) || fail "cannot build the model checker"

args=()
if [ ! -d "$here/mc/vrtreal" ]; then
	:
elif (cd "$work/real/harness" && go build -tags free -o "$work/free" . 2>"$work/real.log"); then
	args+=(-real "$work/free")
else
	echo "note: conformance run not built: $(head -3 "$work/real.log")"
fi
if [ "$prop" = "--replay" ]; then
	VERIF_FREE=$work/free "$work/mc" -replay "$tier"
	exit $?
fi
if [ "$prop" = C17 ]; then
	(cd "$work/sim/harness" && go build -race \
		-gcflags='vrt/...=-race=false' -gcflags='harness=-race=false' -gcflags='github.com/QuangTung97/...=-l' \
		-o "$work/mcrace" .) || fail "cannot build the race checker"
	args+=(-race "$work/mcrace")
fi
secs=150
[ "$tier" = thorough ] && secs=780
export VERIF_TIER=$tier
"$work/mc" -prop "$prop" -tier "$tier" -secs "${VERIF_SECS:-$secs}" -evidence "$here/evidence/$prop.json" \
	-replays "$here/evidence/replays" -known "$here/known_findings.txt" "${args[@]}" ${VERIF_ARGS:-}
exit $?
