#!/bin/bash
# Builds the harness against /repo's current working tree (both variants).
# usage: build.sh [plain|both]
set -e
V="$(cd "$(dirname "${BASH_SOURCE[0]}")" && pwd)"
. "$V/harness/env.sh"
B="$V/.build"
mkdir -p "$B/ov"
exec 9>"$B/lock"
flock 9
export GOCACHE="$B/gocache" GOTMPDIR="$B"
# The runtime overlay: waiting for a mutex counts as durably blocked, so the
# bubble's clock moves on and a call stuck on a mutex is seen to be stuck.
SRC="$GOROOT/src/runtime/runtime2.go"
if ! [ -f "$B/ov/overlay.json" ] || ! grep -q "waitReasonSyncMutexLock: *true" "$B/ov/runtime2.go"; then
  sed 's/^\twaitReasonSynctestRun: *true,/&\n\twaitReasonSyncMutexLock: true,\n\twaitReasonSyncRWMutexRLock: true,\n\twaitReasonSyncRWMutexLock: true,/' "$SRC" > "$B/ov/runtime2.go"
  grep -q "waitReasonSyncMutexLock: true" "$B/ov/runtime2.go"
  printf '{"Replace": {"%s": "%s"}}\n' "$SRC" "$B/ov/runtime2.go" > "$B/ov/overlay.json"
fi
cd "$V/harness"
go build -overlay "$B/ov/overlay.json" -o "$B/h.new" . && mv "$B/h.new" "$B/h"
if [ "$1" != plain ]; then
  go build -race -overlay "$B/ov/overlay.json" -o "$B/h-race.new" . && mv "$B/h-race.new" "$B/h-race"
fi
