#!/bin/bash
# Runs main.rs (next to this file) against the crate in ./cinereus. Exit 0: the property holds there.
set -u
here=$(cd "$(dirname "$0")" && pwd)
repo=$(pwd)
work=$(mktemp -d)
trap 'rm -rf -- "$work"' EXIT
mkdir "$work/src"
cp "$here/common.rs" "$here/main.rs" "$work/src/"
cp "$here/Cargo.lock" "$work/"
cat > "$work/Cargo.toml" <<EOF
[package]
name = "demo"
version = "0.0.0"
edition = "2024"
[workspace]
[dependencies]
cinereus = { path = "$repo/cinereus" }
EOF
cd "$work" || exit 9
export CARGO_TARGET_DIR="$work/target" CARGO_NET_OFFLINE=true
cargo build --offline --quiet || exit 9
timeout 60 "$work/target/debug/demo"
