#!/bin/bash
# Replays a violation against /repo's current working tree: exit 1 if it fails
# as recorded, 0 if the property holds on it.
# usage: replay.sh FILE [-v]
here=$(cd "$(dirname "$0")/.." && pwd)
race=
bin=simcheck
grep -q '"race_build": true' "$1" && race=race && bin=simcheck-race
. "$here/bin/env.sh"
mkdir -p "$here/build"
"$here/bin/build.sh" "$here/build" $race || exit 2
if [ -n "$race" ]; then
	tmp=$(mktemp -d) && trap 'rm -rf "$tmp"' EXIT
	export VERIF_RACELOG=$tmp/race
	export GORACE="log_path=$tmp/race suppress_equal_stacks=0 suppress_equal_addresses=0 history_size=3 exitcode=0 atexit_sleep_ms=0"
fi
"$here/build/bin/$bin" replay $2 "$1"
