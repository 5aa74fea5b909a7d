#!/bin/bash
# Builds the program against /repo with the newest stable toolchain.
set -u
here=$(cd "$(dirname "$0")/.." && pwd)
export RUSTUP_TOOLCHAIN=stable CARGO_NET_OFFLINE=true RUSTFLAGS=-Awarnings CARGO_TERM_COLOR=never
export CARGO_TARGET_DIR=$here/target/wide
mkdir -p "$CARGO_TARGET_DIR"
exec 8>"$CARGO_TARGET_DIR/.lock"
flock 8
now=$(cd /repo && find src Cargo.toml "$here/wide/src" "$here/wide/Cargo.toml" -type f -print0 | sort -z | xargs -0 sha256sum | sha256sum)
[ "$now" = "$(cat "$CARGO_TARGET_DIR/.hash" 2>/dev/null)" ] && exit 0
rm -f "$CARGO_TARGET_DIR/.hash"
cd "$here/wide" || exit 2
cargo clean --offline -q -p upon -p wide >/dev/null 2>&1
cargo build --offline -q --locked >"$CARGO_TARGET_DIR/log" 2>&1 || exit 1
printf '%s\n' "$now" >"$CARGO_TARGET_DIR/.hash"
