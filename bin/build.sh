#!/bin/bash
# Builds the simulator binaries from /repo's current working tree.
# usage: build.sh OUTDIR [race]
set -e
here=$(cd "$(dirname "$0")/.." && pwd)
repo=${VERIF_REPO:-/repo}
out=$1
. "$here/bin/env.sh"
mkdir -p "$out/src" "$out/bin"
(cd "$here/rewrite" && go build -o "$out/bin/rewrite" .)
# start from the sources as they are now: nothing of an earlier build stays
find "$out/src" -mindepth 1 -maxdepth 1 -exec rm -rf {} +
"$out/bin/rewrite" -repo "$repo" -out "$out/src"
cp -r "$here/sim/verifsim" "$out/src/"
cd "$out/src"
export GOFLAGS="-mod=mod -buildvcs=false"
sim=$(printf 'go.opencensus.io/verifsim/%s ' simfmt simrt simsync simatomic simtime simrand simcrand simruntime simexectrace simos simreset harness simcheck)
if [ "$2" = race ]; then
	# The compiler lets code that is not instrumented call allocators that do not
	# tell the race detector of the new object.
	export GOEXPERIMENT=nosizespecializedmalloc
	gc=()
	for p in $sim; do gc+=("-gcflags=$p=-race=false -l"); done
	go build -race "${gc[@]}" -o "$out/bin/simcheck-race" ./verifsim/simcheck
else
	go build -o "$out/bin/simcheck" ./verifsim/simcheck
fi
