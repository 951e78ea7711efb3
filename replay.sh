#!/bin/bash
# replay.sh FILE: runs a recorded counterexample against the real code,
# compiled as it is. Exit 1: it fails there too.
set -u
V="$(cd "$(dirname "$0")" && pwd)"
export GOSYM_VERIF="$V"
bash "$V/setup.sh" || exit 2
exec "$V/bin/gosym" replay "$1"
