#!/bin/bash
# Apply planted changes one by one to a scratch copy of /repo and run the check
# of the property each one is aimed at.  Usage: tools/tryseeds.sh [id ...]
cd "$(dirname "$0")/.."
W=$(mktemp -d /tmp/tryseeds.XXXXXX); trap 'rm -rf "$W"' EXIT
cp -a /repo "$W/repo"
ids="$*"; [ -n "$ids" ] || ids=$(ls seeded)
for id in $ids; do
  p=$(python3 -c "import json;print(json.load(open('seeded/$id/meta.json'))['property'])")
  git -C "$W/repo" checkout -q -- . && git -C "$W/repo" apply "$PWD/seeded/$id/patch.diff" || { echo "$id does not apply"; continue; }
  t=$SECONDS
  REPO_DIR="$W/repo" VERIF_SEED=${VERIF_SEED:-1} VERIF_TIER=quick timeout 900 python3 check.py "$p" > "$W/log" 2>&1; rc=$?
  echo "$id $p rc=$rc $((SECONDS-t))s $(grep -m1 '^VIOLATION' "$W/log")"
done
