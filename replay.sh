#!/bin/bash
# replay.sh FILE: rebuild and re-run a replay file; exit 1 if it reproduces.
here=$(cd "$(dirname "$0")" && pwd)
tmp=$(mktemp -d /tmp/verif.XXXXXXXX) || exit 3
trap 'rm -rf -- "$tmp"' EXIT
race=
grep -q '"race_build": *true' "$1" && race=race
bash "$here/build.sh" "$tmp" $race >"$tmp/build.log" 2>&1 || { tail -c 3000 "$tmp/build.log"; exit 2; }
"$tmp/h" -mode replay -in "$1" -bin "$tmp" -verif "$here"
