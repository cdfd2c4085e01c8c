#!/bin/bash
# Builds the simulator once, so that the compiler's cache is warm; every check builds it again from /repo's current tree.
set -u
cd "$(dirname "$0")" || exit 2
S=$(mktemp -d /tmp/ggsim-setup.XXXXXX) || exit 2
trap 'rm -rf -- "$S"' EXIT
./build.sh "$S"
