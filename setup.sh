#!/bin/bash
# Builds the framework once, to see that everything needed is there.
here=$(cd "$(dirname "$0")" && pwd)
tmp=$(mktemp -d /tmp/verif.XXXXXXXX) || exit 3
trap 'rm -rf -- "$tmp"' EXIT
bash "$here/build.sh" "$tmp" race || exit 1
echo "framework builds"
