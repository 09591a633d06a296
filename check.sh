#!/bin/bash
# check.sh <property> [quick|thorough]
# Builds the engine if it is missing, regenerates everything from /repo's working tree and decides the property.
cd "$(dirname "$0")" || exit 2
tier="${2:-${VERIF_TIER:-quick}}"
export GOPROXY=off GOFLAGS=-mod=mod GOTOOLCHAIN=local GOWORK=off
if [ ! -x engine/symjz ] || [ -n "$(find engine -name '*.go' -newer engine/symjz -print -quit)" ]; then
  (cd engine && go build -o symjz .) || exit 2
fi
exec engine/symjz -prop "$1" -tier "$tier" -root "$PWD"
