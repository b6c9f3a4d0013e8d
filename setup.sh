#!/bin/sh
# Builds everything once, to show that it builds. The checks build for themselves.
set -e
cd "$(dirname "$0")"
export CARGO_NET_OFFLINE=true
CARGO_TARGET_DIR="$PWD/target/checked" cargo build --offline --locked --profile checked --manifest-path mc/Cargo.toml
CARGO_TARGET_DIR="$PWD/target/plain" cargo build --offline --locked --profile plain --manifest-path mc/Cargo.toml
RUSTFLAGS="-C target-feature=+sse2,+ssse3,+sse4.1" CARGO_TARGET_DIR="$PWD/target/simd" cargo build --offline --locked --profile checked --manifest-path mc/Cargo.toml
CARGO_TARGET_DIR="$PWD/target/xtask" cargo build --offline --locked --manifest-path /repo/xtask/Cargo.toml
CARGO_TARGET_DIR="$PWD/target/share" cargo check --offline --locked --features C19,C20,C21 --manifest-path share/Cargo.toml
