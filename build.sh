#!/bin/bash
# build.sh [race]: builds the simulation worker from /repo's working tree and the driver.
export HOME=${HOME:-/root} GOTOOLCHAIN=local GOPROXY=off GOFLAGS=-mod=mod GOWORK=off GOSUMDB=off
export PATH=/usr/local/sbin:/usr/local/bin:/usr/sbin:/usr/bin:/sbin:/bin:$PATH
here=$(cd "$(dirname "$0")" && pwd)
repo=${VSIM_REPO:-/repo}
build=${VSIM_BUILD:-$here/.build}
mkdir -p "$build"
(cd "$here/sim/tools/prep" && go build -o "$build/prep" .) || exit 2
"$build/prep" "$repo" "$here/sim" "$build" || exit 2
(cd "$here/sim" && go build -o "$build/driver" ./cmd/driver) || exit 2
export GOEXPERIMENT=norandomizedheapbase64
# what the compiler leaves out of instrumented packages the harness must not use either
[ "$1" = race ] && GOEXPERIMENT=$GOEXPERIMENT,nosizespecializedmalloc,noruntimefreegc
if [ "$1" = race ]; then
  (cd "$here/sim" && go build -race '-gcflags=vsim/...=-race=false -l' -overlay "$build/overlay.json" -modfile "$build/go.mod" -o "$build/worker-race" ./cmd/worker) || exit 2
  "$build/worker-race" identities || exit 2
else
  (cd "$here/sim" && go build -overlay "$build/overlay.json" -modfile "$build/go.mod" -o "$build/worker" ./cmd/worker) || exit 2
  "$build/worker" identities || exit 2
fi
