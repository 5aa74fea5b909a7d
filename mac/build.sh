#!/bin/bash
# Builds the program in $1 (a directory with src/main.rs) against /repo.
set -u
here=$(cd "$(dirname "$0")" && pwd)
export RUSTUP_TOOLCHAIN=1.79.0 CARGO_NET_OFFLINE=true RUSTFLAGS=-Awarnings CARGO_TERM_COLOR=never
export CARGO_TARGET_DIR=$here/../target/mac/out
mkdir -p "$CARGO_TARGET_DIR"
cp "$here/Cargo.toml" "$here/Cargo.lock" "$1/"
cd "$1" || exit 2
now=$(cd /repo && find src Cargo.toml -type f -print0 | sort -z | xargs -0 sha256sum | sha256sum)
if [ "$now" != "$(cat "$CARGO_TARGET_DIR/.hash" 2>/dev/null)" ]; then
    rm -f "$CARGO_TARGET_DIR/.hash"
    cargo clean --offline -q -p upon >/dev/null 2>&1
fi
cargo build --offline --locked -q || exit 1
printf '%s\n' "$now" >"$CARGO_TARGET_DIR/.hash"
