#!/bin/bash
# replay.sh FILE: rebuild from /repo and re-execute a replay file.
cd "$(dirname "$0")" || exit 3
export GMSIM_ROOT="$PWD"
./build.sh || exit 3
exec .build/gmsim replay "$1"
