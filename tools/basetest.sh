#!/bin/bash
# runs the tests of $REPO (default /repo) like /opt/vp/test.sh and compares with the baseline: exit 0 when every stable test passes
repo=${REPO:-/repo}
cd "$repo" || exit 2
export GOFLAGS=-mod=mod GOPROXY=off GOTOOLCHAIN=local
go build ./... || { echo "build failed"; exit 2; }
w=$(mktemp -d /tmp/basetest.XXXXXX); trap 'rm -rf -- "$w"' EXIT
for dir in memcache memcache/stats $(ls -d memcache/netconn/*_test.go >/dev/null 2>&1 && echo memcache/netconn); do
	b=$w/${dir//\//_}.test
	cd "$repo/$dir" && go test -vet=off -c -o "$b" . || continue
	"$b" -test.list '.*' | grep -E '^(Test|Example|Fuzz)' | xargs -P 1 -I{} sh -c "go tool test2json -p github.com/QuangTung97/go-memcache/$dir $b -test.v=test2json -test.timeout=60s -test.run '^{}\$' >$w/${dir//\//_}.{}.json 2>/dev/null"
done
cat $w/*.json >$w/all
python3 - $w/all <<'P'
import json,sys
b=set(json.load(open('/opt/vp/BASELINE.json'))['stable'])
t=set()
for l in open(sys.argv[1]):
    try: d=json.loads(l)
    except ValueError: continue
    if d.get('Action')=='pass' and 'Test' in d: t.add(d['Package']+'/'+d['Test'])
m=sorted(x for x in b if x not in t)
print(len(b),"stable,",len(m),"missing",m[:10]); sys.exit(1 if m else 0)
P
