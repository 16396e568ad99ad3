#!/bin/bash
# Builds demo.rs against the crate in the current directory and runs it.
# Exit 0: behaves as it should. Nonzero: it does not.
here=$(cd "$(dirname "$0")" && pwd)
repo=$PWD
tmp=$(mktemp -d) || exit 9
trap 'rm -rf "$tmp"' EXIT
mkdir -p "$tmp/src"
cp "$here/demo.rs" "$tmp/src/main.rs"
cp "$here/util.rs" "$tmp/src/util.rs"
printf '[package]\nname = "demo"\nversion = "0.1.0"\nedition = "2021"\n[workspace]\n[dependencies]\nmagmaflow = { path = "%s" }\n[profile.dev]\nopt-level = 1\n' "$repo" > "$tmp/Cargo.toml"
cd "$tmp"
export CARGO_TARGET_DIR="$tmp/target"
unset RUSTFLAGS
cargo build --offline -q > "$tmp/log" 2>&1 || { cat "$tmp/log"; exit 8; }
timeout 120 "$tmp/target/debug/demo"
