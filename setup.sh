#!/bin/bash
# builds the exploration harness once, offline
cd "$(dirname "$0")" || exit 2
export PATH="/root/.cargo/bin:$PATH" CARGO_NET_OFFLINE=true CARGO_TERM_COLOR=never RUSTC_WRAPPER=
export RUSTUP_TOOLCHAIN=stable-x86_64-unknown-linux-gnu
export CARGO_TARGET_DIR="$PWD/target"
mkdir -p evidence replays
exec cargo build --release --offline --manifest-path mc/Cargo.toml
