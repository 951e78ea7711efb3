#!/bin/bash
# setup.sh: builds the engine from its source in /verif/engine.
set -eu
V="$(cd "$(dirname "$0")" && pwd)"
export GOFLAGS=-mod=mod GOPROXY=off GOTOOLCHAIN=local
mkdir -p "$V/bin" "$V/evidence"
cd "$V/engine"
go build -o "$V/bin/gosym" .
