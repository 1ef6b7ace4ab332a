#!/bin/bash
# run in /repo: builds demo.rs against the crate in the current directory, in a scratch folder
set -u
D="$(cd "$(dirname "$0")" && pwd)"
R="$PWD"
T="$(mktemp -d)"
trap 'rm -rf "$T"' EXIT
mkdir -p "$T/src"
cp "$D/demo.rs" "$T/src/main.rs"
cp "$R/Cargo.lock" "$T/Cargo.lock"
cat > "$T/Cargo.toml" <<EOF
[package]
name = "demo"
version = "0.0.0"
edition = "2021"
[workspace]
[dependencies]
curvo = { path = "$R", features = ["serde"] }
nalgebra = "0.33.2"
serde_json = "1"
EOF
export PATH="/root/.cargo/bin:$PATH" RUSTUP_TOOLCHAIN=stable CARGO_NET_OFFLINE=true CARGO_TERM_COLOR=never
export CARGO_TARGET_DIR="$T/target" CARGO_INCREMENTAL=0 CARGO_PROFILE_DEV_DEBUG=0
cd "$T" && cargo run --offline -q
