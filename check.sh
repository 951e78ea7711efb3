#!/bin/bash
# check.sh ID [quick|thorough]: decides one property. Builds the engine if it
# is not built, loads /repo's current source and explores it.
set -u
V="$(cd "$(dirname "$0")" && pwd)"
export GOFLAGS=-mod=mod GOPROXY=off GOTOOLCHAIN=local GOSYM_VERIF="$V"
bash "$V/setup.sh" || exit 2
unset GOFLAGS
exec "$V/bin/gosym" check "$1" "${2:-${VERIF_TIER:-quick}}"
