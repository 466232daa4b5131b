#!/bin/bash
# usage: check.sh check|replay|build ARGS... -- builds the driver and runs it.
here=$(cd "$(dirname "$0")/.." && pwd)
. /opt/vp/env.sh 2>/dev/null || export PATH=/opt/veriftools/go1.27.3/bin:$PATH GOTOOLCHAIN=local GOPROXY=off GOSUMDB=off GOFLAGS=-mod=mod GOWORK=off
mkdir -p "$here/.build" || exit 3
(cd "$here/sim/vsim" && go build -o "$here/.build/vsim" .) || exit 3
cd "$here" && exec "$here/.build/vsim" "$@"
