#!/bin/bash
# Runs main.rs (beside this file) against the openjp2 crate of the current directory.
here=$(cd "$(dirname "$0")" && pwd)
repo=$PWD
t=$(mktemp -d /tmp/demo.XXXXXX) || exit 99
trap 'rm -rf "$t"' EXIT
mkdir -p "$t/src"
cp "$here/main.rs" "$here/jp2.rs" "$t/src/"
cat > "$t/Cargo.toml" <<X
[package]
name = "demo"
version = "0.1.0"
edition = "2021"
[workspace]
[dependencies]
openjp2 = { path = "$repo/openjp2-rs" }
[profile.dev]
opt-level = 1
debug = 0
X
cd "$t" && RUSTFLAGS=-Awarnings CARGO_TARGET_DIR="$t/target" cargo build --offline -q || exit 98
timeout 200 "$t/target/debug/demo"
