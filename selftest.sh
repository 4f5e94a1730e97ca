#!/bin/bash
# Determinism self-test: the execution digests of the same runs must not
# depend on the process or on how many workers run side by side.
here=$(cd "$(dirname "$0")" && pwd)
bash "$here/build.sh" || exit 2
bin="$here/dst/target/release/dst"
n=${1:-400}
bad=0
for id in $("$bin" list); do
    a=$("$bin" digests "$id" "$n" 1 | md5sum)
    b=$("$bin" digests "$id" "$n" 8 | md5sum)
    c=$("$bin" digests "$id" "$n" 3 | md5sum)
    if [ "$a" = "$b" ] && [ "$b" = "$c" ]; then echo "$id deterministic over $n runs"; else echo "$id NOT deterministic"; bad=1; fi
done
exit $bad
