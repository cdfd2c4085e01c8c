#!/bin/bash
# try.sh [-t TIER] ID...: runs the property's check against planted bugs, each in a
# copy of /repo that is mounted over it in a private mount namespace.
TIER=quick; [ "$1" = -t ] && { TIER=$2; shift 2; }
ROOT=$(cd "$(dirname "$0")/.." && pwd)
for id in "$@"; do
	d=$ROOT/seeded/$id
	p=$(python3 -c "import json;print(json.load(open('$d/meta.json'))['property'])")
	w=$(mktemp -d /tmp/try.XXXXXX)
	cp -a /repo/. "$w/"
	git -C "$w" checkout -q -- . && git -C "$w" apply "$d/patch.diff" || { echo "$id: patch doesn't apply"; rm -rf -- "$w"; continue; }
	s=$(date +%s)
	unshare -m bash -c "mount --bind $w /repo && cd $ROOT && ./check.sh $p $TIER" > /tmp/try_$id.log 2>&1; rc=$?
	e=$(date +%s)
	rm -rf -- "$w"
	echo "$id $p rc=$rc $((e-s))s $(grep -m1 VIOLATION /tmp/try_$id.log)"
done
