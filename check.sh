#!/bin/bash
# check.sh PROPERTY [quick|thorough] [extra ggsim flags]: decides one property on /repo's current tree.
set -u
ROOT=$(cd "$(dirname "$0")" && pwd)
PROP=$1
TIER=${2:-${VERIF_TIER:-quick}}
shift; shift 2>/dev/null
SCRATCH=$(mktemp -d /tmp/ggsim.XXXXXX) || exit 2
trap 'rm -rf -- "$SCRATCH"' EXIT
if ! "$ROOT/build.sh" "$SCRATCH"; then
	echo "check.sh: build failed" >&2
	exit 2
fi
export GGSIM_SCRATCH="$SCRATCH" GGSIM_KNOWN="$ROOT/known_findings.txt"
"$SCRATCH/ggsim" check -prop "$PROP" -tier "$TIER" -seed "${VERIF_SEED:-1}" -sites "$SCRATCH/sites.json" \
	-evidence "$ROOT/evidence/$PROP.json" -replays "$ROOT/replays" "$@"
exit $?
