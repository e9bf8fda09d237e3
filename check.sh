#!/bin/bash
# usage: check.sh ID            decide one property (VERIF_TIER, VERIF_SEED)
#        check.sh replay FILE   re-run a replay file
cd "$(dirname "${BASH_SOURCE[0]}")" || exit 2
V="$PWD"
if ! ./build.sh both; then
  echo "ERROR: build failed" >&2
  exit 2
fi
unset GOMAXPROCS GODEBUG GORACE GOGC GOMEMLIMIT
if [ "$1" = replay ]; then
  exec "$V/.build/h" replay "${@:2}"
fi
exec "$V/.build/h" check "$1" "$V"
