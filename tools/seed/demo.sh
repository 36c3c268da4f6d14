#!/bin/bash
# run in /repo: builds demo.rs against it in a scratch directory and runs it
here=$(cd "$(dirname "$0")" && pwd)
repo=$PWD
d=$(mktemp -d) || exit 2
trap 'cd /; rm -rf -- "$d"' EXIT
mkdir "$d/src" && cp "$here/demo.rs" "$d/src/main.rs" && cp "$repo/Cargo.lock" "$d/Cargo.lock" || exit 2
cat > "$d/Cargo.toml" <<T
[package]
name = "demo"
version = "0.0.0"
edition = "2021"
[workspace]
[dependencies]
sia = { package = "sia_sdk", path = "$repo/sia" }
blake2b_simd = "1"
ed25519-dalek = "2"
hex = "0.4"
time = "0.3"
serde_json = "1"
[profile.dev]
debug = 0
[profile.dev.package.sia_sdk]
opt-level = 1
[profile.dev.package.blake2b_simd]
opt-level = 1
T
cd "$d" && CARGO_TARGET_DIR="$d/target" cargo run --offline -q || exit 1
