#!/bin/bash
# seedcheck.sh ID [nocheck|PROPERTY] : does the planted bug count, and is it caught? Works on a scratch copy of /repo.
id=$1; d=/verif/seeded/$id
p=$(python3 -c "import json;print(json.load(open('$d/meta.json'))['property'])")
r=$(mktemp -d /tmp/seedrepo.XXXXXX); trap 'rm -rf -- "$r"' EXIT
cp -a /repo/. "$r"; cd "$r" || exit 1
[ -z "$(git status --porcelain)" ] || { echo "repo dirty"; exit 1; }
bash $d/demo.sh >/tmp/sd.$id.0 2>&1; a=$?
git apply $d/patch.diff || { echo "$id: patch does not apply"; exit 1; }
base=$(REPO=$r bash /verif/tools/basetest.sh)
for i in 1 2 3; do timeout 300 bash $d/demo.sh >/tmp/sd.$id.1 2>&1; b=$?; [ $b != 0 ] && break; done
out="-"
[ -n "$2" ] && [ "$2" != nocheck ] && p=$2
if [ "$2" != nocheck ]; then out=$(cd /verif && VERIF_REPO=$r bash check.sh $p quick 2>&1 | tail -3 | cut -c1-400); fi
echo "== $id $p: demo clean=$a patched=$b ($(tail -1 /tmp/sd.$id.1 | cut -c1-200)); base: $base"
echo "$out"
