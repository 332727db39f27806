#!/bin/bash
# Runs demo.rs against the crate in the current directory's tree; everything it builds is in a scratch folder.
set -e
here="$(cd "$(dirname "$0")" && pwd)"
repo="$PWD"
tmp="$(mktemp -d)"
trap 'find "$tmp" -delete' EXIT
mkdir "$tmp/src"
cp "$here/demo.rs" "$tmp/src/main.rs"
cp "$here/demo.lock" "$tmp/Cargo.lock"
cat > "$tmp/Cargo.toml" <<T
[package]
name = "demo"
version = "0.1.0"
edition = "2021"
[dependencies]
input_tree = { path = "$repo/aftermath-core/input_tree" }
serde = "=1.0.188"
log = "=0.4.20"
[workspace]
T
cd "$tmp"
RUSTUP_TOOLCHAIN=1.85.1 CARGO_TARGET_DIR="$tmp/target" cargo run --offline --quiet
