#!/bin/bash
# builds the engine and warms the build cache of the harness
cd "$(dirname "$0")" || exit 2
export GOPROXY=off GOFLAGS=-mod=mod GOTOOLCHAIN=local GOWORK=off
(cd engine && go build -o symjz .) || exit 2
bash harness/gen.sh
