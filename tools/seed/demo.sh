#!/bin/bash
# Builds main.rs against the crate in the current directory and runs it.
here=$(cd "$(dirname "$0")" && pwd)
repo=$PWD
flags=$(cat "$here/flags" 2>/dev/null)
tmp=$(mktemp -d) || exit 2
trap 'rm -rf "$tmp"' EXIT
mkdir "$tmp/src"
cp "$here"/*.rs "$tmp/src/"
[ -f "$repo/Cargo.lock" ] && cp "$repo/Cargo.lock" "$tmp/"
cat > "$tmp/Cargo.toml" <<T
[package]
name = "demo"
version = "0.1.0"
edition = "2021"

[dependencies]
aseprite-loader = { path = "$repo" }

[workspace]
T
cd "$tmp" || exit 2
CARGO_TARGET_DIR="$tmp/target" RUSTFLAGS="$flags" cargo build --offline --quiet || exit 3
ulimit -c 0
timeout 60 "$tmp/target/debug/demo" || exit 1
echo "demo: holds"
