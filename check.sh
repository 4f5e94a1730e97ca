#!/bin/bash
# check.sh ID: decides one property by seeded simulation. Exit 0 held, 1 violated, 2 error.
here=$(cd "$(dirname "$0")" && pwd)
bash "$here/build.sh" || exit 2
exec env DST_ROOT="$here" "$here/dst/target/release/dst" check "$1"
