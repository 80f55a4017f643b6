#!/bin/bash
# check.sh PROPERTY TIER: rebuild from /repo, then decide the property.
cd "$(dirname "$0")" || exit 3
export GMSIM_ROOT="$PWD"
./build.sh || exit 3
exec .build/gmsim check "$1" "${2:-${VERIF_TIER:-quick}}"
