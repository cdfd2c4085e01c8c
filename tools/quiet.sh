#!/bin/bash
# quiet.sh PATCH [PROP…]: runs the quick checks on a copy of /repo with a behaviour-preserving
# patch applied (mounted over /repo in a private mount namespace); all must exit 0.
ROOT=$(cd "$(dirname "$0")/.." && pwd)
PATCH=$(realpath "$1"); shift
[ $# -gt 0 ] || set -- C01 C02 C03 C04 C05 C06 C07 C08 C09 C10 C11 C12 C13 C14 C15 C16 C17 C18 C19 C20 C21
w=$(mktemp -d /tmp/quiet.XXXXXX)
cp -a /repo/. "$w/"
git -C "$w" checkout -q -- . && git -C "$w" apply "$PATCH" || exit 2
for p in "$@"; do
	unshare -m bash -c "mount --bind $w /repo && cd $ROOT && ./check.sh $p quick" > /tmp/quiet_$p.log 2>&1
	echo "$(basename "$PATCH") $p exit $? $(grep -m1 VIOLATION /tmp/quiet_$p.log)"
done
rm -rf -- "$w"
