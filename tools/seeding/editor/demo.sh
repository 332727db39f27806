#!/bin/bash
# Runs demo.rs against the crates in the current directory's tree (input_tree, parser, serialization, caret), with the
# parser combinators in chumsky.rs, since the chumsky crate is not installed; all it builds is in a scratch folder.
set -e
here="$(cd "$(dirname "$0")" && pwd)"
repo="$PWD/aftermath-core"
tmp="$(mktemp -d)"
trap 'find "$tmp" -delete' EXIT
crate() { # name, library source, dependencies
  mkdir -p "$tmp/$1"
  cat > "$tmp/$1/Cargo.toml" <<T
[package]
name = "$1"
version = "0.1.0"
edition = "2021"
[lib]
path = "$2"
[features]
wasm = []
extension = []
unstable = []
[dependencies]
$3
T
}
s='serde = { version = "=1.0.228", features = ["derive"] }
log = "=0.4.20"'
t="input_tree = { path = \"$repo/input_tree\" }"
crate chumsky "$here/chumsky.rs" ""
crate parser "$repo/parser/src/lib.rs" "$s
$t
unicode-ident = \"1.0\"
chumsky = { path = \"../chumsky\" }"
crate serialization "$repo/serialization/src/lib.rs" "$s
$t
serde_json = \"=1.0.150\"
thiserror = \"=1.0.69\"
parser = { path = \"../parser\" }"
crate caret "$repo/caret/src/lib.rs" "$s
$t
parser = { path = \"../parser\" }
serialization = { path = \"../serialization\" }"
crate demo "$here/demo.rs" "$s
$t
serde_json = \"=1.0.150\"
parser = { path = \"../parser\" }
serialization = { path = \"../serialization\" }
caret = { path = \"../caret\" }

[[bin]]
name = \"demo\"
path = \"$here/demo.rs\"

[workspace]"
sed -i '/^\[lib\]/,+1d' "$tmp/demo/Cargo.toml"
cp "$here/demo.lock" "$tmp/demo/Cargo.lock"
cd "$tmp/demo"
RUSTUP_TOOLCHAIN=1.85.1 CARGO_TARGET_DIR="$tmp/target" cargo run --offline --quiet
