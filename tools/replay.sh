#!/bin/bash
# bash tools/replay.sh <replay file>: runs the recorded input on the code in /repo
export GOTOOLCHAIN=local GOPROXY=off GOFLAGS=-mod=mod CGO_ENABLED=1
D=$(cd "$(dirname "$0")/.." && pwd)
export GOVC_VERIF=$D
bash "$D/tools/build.sh" || exit 2
exec "$D/build/govc" replay "$1"
