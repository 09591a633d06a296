#!/bin/bash
# replay.sh <violation file>: runs the counterexample against the compiled code of /repo
# (exit 1 when the violation shows, 0 when it does not)
f=$(realpath "$1") || exit 2
cd "$(dirname "$0")" || exit 2
export GOPROXY=off GOFLAGS=-mod=mod GOTOOLCHAIN=local GOWORK=off
if [ ! -x engine/symjz ] || [ -n "$(find engine -name '*.go' -newer engine/symjz -print -quit)" ]; then
  (cd engine && go build -o symjz .) || exit 2
fi
exec engine/symjz -replay "$f" -root "$PWD"
