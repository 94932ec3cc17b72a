#!/bin/bash
# ./run.sh <ID> [vrun options]: builds the monitors and bpass from /repo's working tree, then runs one check.
here=$(cd "$(dirname "$0")" && pwd)
. "$here/build.sh" "$1" || { echo "build failed" >&2; exit 3; }
[ "$1" = setup ] && exit 0
exec "$VB/vrun" "$@"
