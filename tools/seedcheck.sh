#!/bin/bash
# seedcheck.sh ID...: applies each seeded bug to a scratch copy and runs its property's check on it.
cd "$(dirname "$0")"
for id in "$@"; do
  t=$(mktemp -d /tmp/sc-XXXXXX)
  git clone -q --no-hardlinks /repo "$t/r" && git -C "$t/r" apply "$PWD/../seeded/$id/patch.diff" || { echo "$id does not apply"; continue; }
  p=$(python3 -c "import json,sys;print(json.load(open('../seeded/$id/meta.json'))['property'])")
  python3 campaign.py "$id" "$t/r" "$p"
  rm -rf "$t"
done
