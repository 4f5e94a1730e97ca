#!/bin/bash
# Builds the simulation harness against /repo's current working tree.
cd "$(dirname "$0")/dst" || exit 2
export CARGO_NET_OFFLINE=true
# Do not trust timestamps of the code under test: always recompile it.
[ -n "$DST_KEEP" ] || cargo clean --release --offline -q -p lc3-ensemble
if ! out=$(cargo build --release --offline -q 2>&1); then
    echo "$out" >&2
    echo "the harness does not build against /repo" >&2
    exit 2
fi
