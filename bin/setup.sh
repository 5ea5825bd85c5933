#!/bin/bash
# Builds both simulators once, which also warms the build cache.
here=$(cd "$(dirname "$0")/.." && pwd)
set -e
mkdir -p "$here/build"
"$here/bin/build.sh" "$here/build"
"$here/bin/build.sh" "$here/build" race
"$here/build/bin/simcheck" list
