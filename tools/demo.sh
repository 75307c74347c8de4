#!/bin/bash
# Builds main.rs beside this file against the crate in the current directory and runs it.
here="$(cd "$(dirname "$0")" && pwd)"
repo="$PWD"
export HOME="${HOME:-/root}" PATH="/root/.cargo/bin:$PATH"
export RUSTUP_TOOLCHAIN=stable CARGO_NET_OFFLINE=true CARGO_TERM_COLOR=never RUSTC_WRAPPER= RUSTFLAGS=
unset CARGO_BUILD_TARGET
w="$(mktemp -d)" || exit 99
trap 'rm -rf -- "$w"' EXIT
export CARGO_TARGET_DIR="$w/target"
mkdir -p "$w/src"
cp "$here/main.rs" "$w/src/main.rs"
cp "$repo/Cargo.lock" "$w/Cargo.lock"
cat > "$w/Cargo.toml" <<T
[package]
name = "demo"
version = "0.1.0"
edition = "2021"
[workspace]
[dependencies]
procedural_modelling = { path = "$repo", features = ["nalgebra", "svg", "netsci"] }
[profile.dev]
debug = false
opt-level = 1
T
cd "$w" || exit 99
cargo build --offline --quiet 2>build.log || { cat build.log; exit 98; }
timeout 120 "$w/target/debug/demo"
