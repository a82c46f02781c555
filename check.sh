#!/bin/bash
# check.sh PROPERTY TIER: decide one property on /repo's working tree.
# Exit 0: it held on everything explored; 1: VIOLATION line; else: an error.
here=$(cd "$(dirname "$0")" && pwd)
tier=${2:-${VERIF_TIER:-quick}}
tmp=$(mktemp -d /tmp/verif.XXXXXXXX) || exit 3
trap 'rm -rf -- "$tmp"' EXIT
race=
case $1 in C02 | C17) race=race ;; esac
if ! bash "$here/build.sh" "$tmp" $race >"$tmp/build.log" 2>&1; then
  echo "ERROR: build failed"
  tail -c 3000 "$tmp/build.log"
  exit 2
fi
"$tmp/h" -mode check -prop "$1" -tier "$tier" -bin "$tmp" -verif "$here" | grep -av '^-\?[0-9]* -\?[0-9]*$'
exit "${PIPESTATUS[0]}"
