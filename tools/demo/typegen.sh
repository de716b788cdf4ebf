#!/bin/bash
# Builds main.rs beside this script against the type generator of the tree in the current directory
# and runs it; where there is a refused.rs, it must not compile, for the reason in `message`.
# exit 0: the behaviour is right; nonzero: it is broken.
here=$(cd "$(dirname "$0")" && pwd); repo=$PWD
tmp=$(mktemp -d) || exit 2
trap 'rm -rf "$tmp"' EXIT
export RUSTUP_TOOLCHAIN=1.79.0 CARGO_NET_OFFLINE=true CARGO_TARGET_DIR="$tmp/target"
mkdir -p "$tmp/src"
cp "$here/main.rs" "$tmp/src/main.rs"
[ -f "$repo/Cargo.lock" ] && cp "$repo/Cargo.lock" "$tmp/Cargo.lock"
cat >"$tmp/Cargo.toml" <<T
[package]
name = "demo"
version = "0.0.0"
edition = "2021"
[workspace]
[dependencies]
bluejay-typegen = { path = "$repo/bluejay-typegen", features = ["serde", "miniserde"] }
serde_json = "1.0"
T
cd "$tmp" || exit 2
cargo run --offline --quiet >out 2>&1 || { tail -30 out; exit 1; }
if [ -f "$here/refused.rs" ]; then
    cp "$here/refused.rs" src/main.rs
    if cargo build --offline --quiet >out 2>&1; then echo "compiles"; exit 1; fi
    grep -qF "$(cat "$here/message")" out || { tail -30 out; exit 1; }
fi
