#!/bin/bash
# usage: check.sh <property>   decides one property on /repo's working tree
here=$(cd "$(dirname "$0")" && pwd)
"$here/build.sh" >/dev/null || exit 3
exec "$here/.build/rsrcheck" -repo /repo -verif "$here" -property "$1"
