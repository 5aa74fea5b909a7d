#!/bin/bash
# Builds the checks against /repo's current working tree, offline.
set -u
here=$(cd "$(dirname "$0")" && pwd)
export RUSTUP_TOOLCHAIN=1.79.0 CARGO_TARGET_DIR=$here/target CARGO_NET_OFFLINE=true
export RUSTFLAGS= CARGO_TERM_COLOR=never
mkdir -p "$here/target"
exec 9>"$here/target/.lock"
flock 9
# Cargo decides by modification times; decide by content instead.
now=$(cd /repo && find src Cargo.toml -type f -print0 | sort -z | xargs -0 sha256sum | sha256sum)
if [ "$now" != "$(cat "$here/target/.upon_hash" 2>/dev/null)" ]; then
    rm -f "$here/target/.upon_hash"
    (cd "$here/harness" && cargo clean --offline -q -p upon >/dev/null 2>&1)
fi
(cd "$here/harness" && cargo build --offline -q --bin vt) || exit 2
printf '%s\n' "$now" >"$here/target/.upon_hash"
if [ "${1:-}" = --fuzz ]; then
    # The same once more, with the library instrumented for libFuzzer.
    export RUSTC_WRAPPER=$here/fuzz/wrap.sh CARGO_TARGET_DIR=$here/target/fuzz
    if [ "$now" != "$(cat "$here/target/.fuzz_hash" 2>/dev/null)" ]; then
        rm -f "$here/target/.fuzz_hash"
        (cd "$here/fuzz" && cargo clean --offline -q -p upon >/dev/null 2>&1)
    fi
    (cd "$here/fuzz" && cargo build --offline -q) || exit 3
    printf '%s\n' "$now" >"$here/target/.fuzz_hash"
fi
