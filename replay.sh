#!/bin/bash
# replay.sh FILE: rebuilds from /repo's current tree and replays a violation file. Exit 1 if it reproduces.
set -u
ROOT=$(cd "$(dirname "$0")" && pwd)
SCRATCH=$(mktemp -d /tmp/ggsim.XXXXXX) || exit 2
trap 'rm -rf -- "$SCRATCH"' EXIT
"$ROOT/build.sh" "$SCRATCH" || exit 2
export GGSIM_SCRATCH="$SCRATCH"
"$SCRATCH/ggsim" replay "$1"
exit $?
