#!/bin/bash
# replay.sh FILE: rebuilds from /repo and replays a violation exactly.
here=$(cd "$(dirname "$0")" && pwd)
mode=
grep -q '"property": "R01"' "$1" && mode=race
"$here/build.sh" $mode || exit 2
exec "${VSIM_BUILD:-$here/.build}/driver" replay "$1"
