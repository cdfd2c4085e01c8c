#!/bin/bash
# determinism.sh [RUNS] [PROP…]: runs the same seeds in one process, in many short ones and
# in reverse order of chunks, several processes at once, and compares all event hashes.
N=${1:-1500}; shift
ROOT=$(cd "$(dirname "$0")/.." && pwd)
W=$(mktemp -d /tmp/det.XXXXXX); trap 'rm -rf -- "$W"' EXIT
"$ROOT/build.sh" "$W" || exit 2
export GGSIM_SCRATCH=$W
[ $# -gt 0 ] || set -- C01 C02 C03 C04 C05 C06 C07 C08 C09 C10 C11 C12 C13 C14 C15 C16 C17 C18 C19 C20
one() { # property, seed
	local p=$1 seed=$2 n=$N o=$W/$1.$2
	[ $p = C04 ] && n=$((N / 20))
	"$W/ggsim" hashes $p quick $seed 0 $n > $o.a
	: > $o.b
	local step=$((n / 7 + 1)) i
	for ((i = 6; i >= 0; i--)); do # short processes, last part first
		local f=$((i * step)) t=$(((i + 1) * step)); [ $t -gt $n ] && t=$n
		[ $f -lt $t ] && GOMAXPROCS=$((1 + i % 4)) GOGC=$((20 + 60 * i)) "$W/ggsim" hashes $p quick $seed $f $t >> $o.b
	done
	sort -k2n $o.a > $o.as; sort -k2n $o.b > $o.bs
	if cmp -s $o.as $o.bs && [ $(wc -l < $o.as) = $n ]; then echo "$p seed $seed: $n runs, $(cut -d' ' -f3 $o.as | sort -u | wc -l) distinct, identical"; else echo "$p seed $seed: DIFFERENT"; diff $o.as $o.bs | head -4; fi
}
export -f one; export N W
for p in "$@"; do for seed in 1 7 99; do echo $p $seed; done; done | xargs -P 8 -L 1 bash -c 'one $0 $1'
