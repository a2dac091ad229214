#!/bin/bash
# check.sh PROPERTY [quick|thorough]
here=$(cd "$(dirname "$0")" && pwd)
prop=$1
tier=${2:-${VERIF_TIER:-quick}}
mode=
[ "$prop" = R01 ] && mode=race
exec 9>"$here/.build.lock"
flock 9
"$here/build.sh" $mode || exit 2
flock -u 9
exec 9>&-
exec "${VSIM_BUILD:-$here/.build}/driver" "$prop" "$tier"
