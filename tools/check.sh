#!/bin/bash
# bash tools/check.sh <property> [quick|thorough|baseline]
export PATH=/usr/local/sbin:/usr/local/bin:/usr/sbin:/usr/bin:/sbin:/bin:$PATH HOME=/root
export GOTOOLCHAIN=local GOPROXY=off GOFLAGS=-mod=mod CGO_ENABLED=1
D=$(cd "$(dirname "$0")/.." && pwd)
export GOVC_VERIF=$D
# after a change to the code, contracts that no longer type-check are set aside (never on the committed tree)
[ "$2" = baseline ] || export GOVC_LENIENT=1
bash "$D/tools/build.sh" || exit 2
exec "$D/build/govc" check "$@"
