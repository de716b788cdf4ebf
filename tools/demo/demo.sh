#!/bin/bash
# Builds main.rs beside this script against the tree in the current directory and runs it.
# exit 0: the behaviour is right; nonzero: it is broken.
here=$(cd "$(dirname "$0")" && pwd); repo=$PWD
tmp=$(mktemp -d) || exit 2
trap 'rm -rf "$tmp"' EXIT
export RUSTUP_TOOLCHAIN=1.79.0 CARGO_NET_OFFLINE=true CARGO_TARGET_DIR="$tmp/target"
mkdir -p "$tmp/src"
cp "$here/main.rs" "$tmp/src/main.rs"
[ -f "$repo/Cargo.lock" ] && cp "$repo/Cargo.lock" "$tmp/Cargo.lock"
cat >"$tmp/Cargo.toml" <<T
[package]
name = "demo"
version = "0.0.0"
edition = "2021"
[workspace]
[dependencies]
bluejay-core = { path = "$repo/bluejay-core", features = ["serde_json"] }
bluejay-parser = { path = "$repo/bluejay-parser", features = ["format-errors"] }
bluejay-printer = { path = "$repo/bluejay-printer" }
bluejay-schema-comparator = { path = "$repo/bluejay-schema-comparator" }
bluejay-validator = { path = "$repo/bluejay-validator", features = ["serde_json", "parser-integration"] }
bluejay-visibility = { path = "$repo/bluejay-visibility" }
serde_json = "1.0"
T
cd "$tmp" && cargo run --offline --quiet 2>&1 | tail -30
exit "${PIPESTATUS[0]}"
