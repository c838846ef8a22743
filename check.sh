#!/bin/bash
# usage: check.sh <property> [quick|thorough] [engine flags...]
cd "$(dirname "$0")" || exit 2
V=$PWD
export PATH=/opt/veriftools/go1.26.10/bin:$PATH GOTOOLCHAIN=local GOFLAGS=-mod=mod GOPROXY=off GOSUMDB=off
B=$V/engine/bin/vx
if [ ! -x "$B" ] || [ -n "$(find "$V/engine" -maxdepth 1 -name '*.go' -newer "$B" -print -quit)" ]; then
  mkdir -p "$V/engine/bin"
  (cd "$V/engine" && go build -o "$B.$$" . && mv -f "$B.$$" "$B") || { echo "cannot build the engine" >&2; exit 2; }
fi
P=$1; T=${2:-quick}; shift; shift
exec "$B" -prop "$P" -tier "$T" -repo /repo -verif "$V" "$@"
