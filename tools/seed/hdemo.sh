#!/bin/bash
# Runs main.rs (next to this file) against the crates in this directory (./hotmeal, ./hotmeal-server,
# ./hotmeal-wasm, ./cinereus), built with the stand-ins in kit/ for dependencies that are not
# available offline. Exit 0: the property holds there.
set -u
here=$(cd "$(dirname "$0")" && pwd)
repo=$(pwd)
work=$(mktemp -d)
trap 'rm -rf -- "$work"' EXIT
cp -r "$here/kit/." "$work/"
sed -i "s#\"/repo/#\"$repo/#g" "$work"/*/Cargo.toml
mkdir -p "$work/src"
cp "$here/hcommon.rs" "$here/main.rs" "$work/src/"
cat > "$work/Cargo.toml" <<TOML
[package]
name = "hhot"
version = "0.1.0"
edition = "2024"
[workspace]
[[bin]]
name = "demo"
path = "src/main.rs"
[dependencies]
cinereus = { path = "$repo/cinereus" }
hotmeal = { path = "hotmeal" }
hotmeal-server = { path = "server" }
hotmeal-wasm = { path = "wasm" }
web-sys = { path = "stubs/web-sys" }
html5ever = { path = "stubs/html5ever" }
compact_str = { path = "stubs/compact_str" }
facet-postcard = { path = "stubs/facet-postcard" }
rapidhash = { path = "stubs/rapidhash" }
TOML
cd "$work" || exit 9
export CARGO_TARGET_DIR="$work/target" CARGO_NET_OFFLINE=true
cargo build --offline --quiet 2>build.log || { cat build.log; exit 9; }
timeout 60 "$work/target/debug/demo"
