#!/bin/bash
# Decides one property on /repo's current working tree.
# usage: check.sh ID [BUDGET]      (VERIF_SEED, VERIF_TIER from the environment)
here=$(cd "$(dirname "$0")/.." && pwd)
id=$1
tier=${VERIF_TIER:-quick}
export VERIF_TIER=$tier VERIF_SEED=${VERIF_SEED:-1}
budget=$2
if [ -z "$budget" ]; then
	if [ "$tier" = thorough ]; then budget=600s; else budget=45s; fi
fi
race=
bin=simcheck
[ "$id" = C19 ] && race=race && bin=simcheck-race
. "$here/bin/env.sh"
mkdir -p "$here/build"
exec 9>"$here/build/lock"
flock 9
if ! "$here/bin/build.sh" "$here/build" $race >"$here/build/log" 2>&1; then
	cat "$here/build/log"
	echo "check: the simulator does not build against the working tree"
	exit 2
fi
export GORACE=report_bugs=0 # the workers set their own
exec "$here/build/bin/$bin" check -prop "$id" -budget "$budget" -verif "$here"
