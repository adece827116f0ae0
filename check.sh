#!/bin/bash
# usage: check.sh <property> [quick|thorough]   -- rebuilds the harness against /repo's working tree, runs one check
cd "$(dirname "$0")" || exit 2
export VERIF_DIR="$PWD"
export PATH="/root/.cargo/bin:$PATH" CARGO_NET_OFFLINE=true CARGO_TERM_COLOR=never RUSTC_WRAPPER= RUST_BACKTRACE=0
export RUSTUP_TOOLCHAIN=stable-x86_64-unknown-linux-gnu
export CARGO_TARGET_DIR="$VERIF_DIR/target"
tier="${2:-${VERIF_TIER:-quick}}"
log=$(mktemp)
if ! cargo build --release --offline --quiet --manifest-path mc/Cargo.toml >"$log" 2>&1; then
  cat "$log" >&2; rm -f "$log"
  echo "harness build failed" >&2
  exit 2
fi
rm -f "$log"
"$CARGO_TARGET_DIR/release/mc" "$1" "$tier"
rc=$?
case $rc in
  132|134|136|139) # the code under test took the whole process down (abort, stack overflow, illegal access)
    mkdir -p replays
    echo "{\"property\": \"$1\", \"key\": \"process-crash\", \"what\": \"the process exploring $1 was ended by signal $((rc-128))\"}" > "replays/$1-crash.json"
    echo "VIOLATION property=$1 replay=$VERIF_DIR/replays/$1-crash.json"
    exit 1 ;;
esac
exit $rc
