#!/bin/bash
# seeded.sh [ID...]: apply each planted bug to /repo, run its property's quick check, undo it.
# Development aid only; no check uses it. With ALL=1 every check runs against each bug.
here=$(cd "$(dirname "$0")/.." && pwd)
[ $# -gt 0 ] || set -- $(ls "$here/seeded")
[ -z "$(git -C /repo status --porcelain)" ] || { echo "/repo is not clean"; exit 2; }
trap 'git -C /repo checkout -q -- .' EXIT
for id; do
  git -C /repo apply "$here/seeded/$id/patch.diff" || { echo "$id: does not apply"; continue; }
  props=$(python3 -c 'import json,sys; print(json.load(open(sys.argv[1]))["property"])' "$here/seeded/$id/meta.json")
  [ -z "$ALL" ] || props=$(python3 -c 'import json,sys; print(*[c["property"] for c in json.load(open(sys.argv[1]))["checks"]])' "$here/MANIFEST.json")
  for p in $props; do
    s=$(date +%s)
    out=$(cd "$here" && VERIF_SEED=1 VERIF_TIER=quick bash check.sh "$p" quick 2>&1)
    rc=$?
    echo "$id $p rc=$rc $(($(date +%s) - s))s $(grep -am1 '^VIOLATION' <<<"$out" | head -c 300)"
    [ $rc -le 1 ] || tail -c 1500 <<<"$out"
  done
  git -C /repo checkout -q -- .
done
