#!/bin/bash
# builds the verifier from /verif/govc
export GOTOOLCHAIN=local GOPROXY=off GOFLAGS=-mod=mod CGO_ENABLED=1
D=$(cd "$(dirname "$0")/.." && pwd)
mkdir -p "$D/build"
cd "$D/govc" && go build -o "$D/build/govc" .
