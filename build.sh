#!/bin/bash
# build.sh OUT [race]: instrument /repo's working tree and build the simulator
# into OUT. Nothing is written to /repo.
set -e
. /opt/vp/env.sh
export GOTELEMETRY=off
out=$1
here=$(cd "$(dirname "$0")" && pwd)
cd "$here/sim"
go run ./instr -repo /repo -out "$out" >"$out/instr.log"
go build -overlay "$out/overlay.json" -o "$out/h" ./harness
if [ "$2" = race ]; then
  go build -race -gcflags=all=-d=checkptr=0 -overlay "$out/overlay.json" -o "$out/hr" ./harness
fi
