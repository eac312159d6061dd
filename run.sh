#!/bin/bash
# run.sh ID [quick|thorough] [engine flags]: decides one property.
here=$(cd "$(dirname "$0")" && pwd)
id=${1:?usage: run.sh ID [tier]}
tier=${2:-${VERIF_TIER:-quick}}
shift; [ $# -gt 0 ] && shift
"$here/build.sh" || exit 2
. /opt/vp/env.sh
exec "$here/build/gosym" -repo /repo -verif "$here" -check "$id" -tier "$tier" "$@"
