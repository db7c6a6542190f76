#!/bin/bash
# run.sh PROPERTY [quick|thorough]: builds the checker and decides one property
# on the current source of /repo.
here=$(cd "$(dirname "$0")" && pwd)
. "$here/env.sh"
prop=$1 tier=${2:-quick}
mkdir -p "$here/evidence"
if ! "$here/setup.sh" >"$here/.cache/build.log" 2>&1; then
	cat "$here/.cache/build.log"
	echo "the checker does not build"
	echo "VIOLATION property=$prop replay=$here/.cache/build.log"
	exit 1
fi
"$here/bin/vc" -prop "$prop" -tier "$tier" -load "$here/load" -evidence "$here/evidence" -known "$here/KNOWN_FINDINGS"
code=$?
if [ $code -gt 1 ]; then
	echo "the checker ended with status $code"
	echo "VIOLATION property=$prop replay=$here/run.sh"
	exit 1
fi
exit $code
