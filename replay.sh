#!/bin/bash
# replay.sh FILE: re-executes a recorded violation. Exit 1 if it reproduces exactly.
here=$(cd "$(dirname "$0")" && pwd)
bash "$here/build.sh" || exit 2
exec env DST_ROOT="$here" "$here/dst/target/release/dst" replay "$1"
