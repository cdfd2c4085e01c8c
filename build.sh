#!/bin/bash
# build.sh OUTDIR: instruments the current /repo working tree into OUTDIR and builds the simulator there.
set -u
cd "$(dirname "$0")/sim" || exit 2
export PATH=/usr/local/go/bin:$PATH GOTOOLCHAIN=local GOPROXY=off GOFLAGS=-mod=mod GOWORK=off GOTELEMETRY=off
OUT=$1
mkdir -p "$OUT" || exit 2
go build -o "$OUT/instrument" ./cmd/instrument || exit 2
for level in full nofile nosplit plain; do
	rm -rf "$OUT/src"
	"$OUT/instrument" -level $level -repo /repo -out "$OUT" || exit 2
	if go build -overlay "$OUT/overlay.json" -o "$OUT/ggsim" ./cmd/ggsim 2> "$OUT/build.log"; then
		[ $level = full ] || echo "build.sh: warning: instrumentation level '$level' had to be used" >&2
		exit 0
	fi
done
cat "$OUT/build.log" >&2
exit 2
