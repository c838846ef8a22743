#!/bin/bash
# builds the engine and warms the build cache of the packages the checks load
cd "$(dirname "$0")" || exit 2
export PATH=/opt/veriftools/go1.26.10/bin:$PATH GOTOOLCHAIN=local GOFLAGS=-mod=mod GOPROXY=off GOSUMDB=off
mkdir -p engine/bin && (cd engine && go build -o bin/vx .) || exit 2
echo built
