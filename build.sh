#!/bin/bash
# Builds the simulator against /repo's current working tree into /verif/.build.
set -u
cd "$(dirname "$0")" || exit 3
. /opt/vp/env.sh 2>/dev/null
export GOFLAGS=-mod=readonly GOPROXY=off GOTOOLCHAIN=local CGO_ENABLED=0 GOWORK=off
B=.build
mkdir -p $B || exit 3
exec 9>$B/lock
flock 9
go build -o $B/instr ./cmd/instr || exit 3
rm -rf "$PWD/$B/ov"
$B/instr /repo "$PWD/$B/ov" "$(go env GOROOT)" "$PWD" || exit 3
go build -o $B/gmsim-plain ./cmd/gmsim || exit 3
if go build -tags simcurve -overlay "$PWD/$B/ov/fast.json" -o $B/gmsim ./cmd/gmsim 2>$B/fast.err; then
  exit 0
fi
cat $B/fast.err >&2
echo "build.sh: instrumented build failed, using coarse scheduling" >&2
GMSIM_COARSE=1 $B/instr /repo "$PWD/$B/ov" "$(go env GOROOT)" "$PWD" || exit 3
if go build -tags simcurve -overlay "$PWD/$B/ov/fast.json" -o $B/gmsim ./cmd/gmsim 2>$B/fast.err; then
  exit 0
fi
if ! go build -overlay "$PWD/$B/ov/overlay.json" -o $B/gmsim ./cmd/gmsim 2>$B/instr.err; then
  cat $B/instr.err >&2
  echo "build.sh: instrumented build failed, using coarse scheduling" >&2
  cp $B/gmsim-plain $B/gmsim || exit 3
fi
exit 0
