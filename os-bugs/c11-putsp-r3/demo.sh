#!/bin/bash
# Runs main.rs (beside this file) against the crate in the current directory.
here=$(cd "$(dirname "$0")" && pwd)
repo=$PWD
work=$(mktemp -d /tmp/demo.XXXXXX) || exit 2
mkdir -p "$work/src"
cp "$here/main.rs" "$work/src/main.rs"
cp "$repo/Cargo.lock" "$work/Cargo.lock"
cat > "$work/Cargo.toml" <<T
[package]
name = "demo"
version = "0.1.0"
edition = "2021"
[workspace]
[dependencies]
lc3-ensemble = { path = "$repo" }
T
cd "$work" || exit 2
CARGO_NET_OFFLINE=true CARGO_TARGET_DIR="$work/target" timeout 280 cargo run --offline -q
rc=$?
cd /
case "$work" in /tmp/demo.??????) rm -rf "$work" ;; esac
exit $rc
