#!/bin/bash
# usage: check.sh PROPERTY [quick|thorough]
V="$(cd "$(dirname "${BASH_SOURCE[0]}")" && pwd)"
cd "$V"
export VERIF_DIR="$V"
log="$V/.build/build.$$.log"
mkdir -p "$V/.build"
if ! ./build.sh >"$log" 2>&1; then
  tail -60 "$log" >&2
  echo "error: the simulator did not build against /repo" >&2
  rm -f "$log"
  exit 2
fi
rm -f "$log"
exec ./.build/simtest check "$@"
