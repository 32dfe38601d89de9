#!/bin/bash
# usage: replay.sh FILE [-v]    runs one recorded violation again against /repo's current tree
V="$(cd "$(dirname "${BASH_SOURCE[0]}")" && pwd)"
f="$(realpath "$1")"; shift
cd "$V"
export VERIF_DIR="$V"
./build.sh >&2 || exit 2
exec ./.build/simtest replay "$f" "$@"
