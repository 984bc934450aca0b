#!/bin/bash
# usage: catch.sh <id>...: applies each planted bug to /repo, runs the quick
# check of its property, and undoes it (developer tool, not a check).
source "$(dirname "$(realpath "$0")")/private.sh"
here="$(cd "$(dirname "$0")/.." && pwd)"
for id in "$@"; do
  d="$here/seeded/$id"
  p=$(python3 -c 'import json,sys; print(json.load(open(sys.argv[1]))["property"])' "$d/meta.json")
  git -C /repo apply "$d/patch.diff" || continue
  s=$(date +%s)
  out=$("$here/run.sh" "$p" quick 2>&1); rc=$?
  git -C /repo checkout -q -- .
  echo "$id $p rc=$rc $(( $(date +%s) - s ))s $(echo "$out" | grep -m1 '^VIOLATION')"
done
