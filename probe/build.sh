#!/bin/bash
# Builds the probe under every combination of the crate's features. Prints the
# combinations that do not compile and exits 1 if there are any.
set -u
here=$(cd "$(dirname "$0")/.." && pwd)
export RUSTUP_TOOLCHAIN=1.79.0 CARGO_NET_OFFLINE=true RUSTFLAGS=-Awarnings CARGO_TERM_COLOR=never
top=$here/target/probe
mkdir -p "$top"
exec 8>"$top/.lock"
flock 8
now=$(cd /repo && find src Cargo.toml "$here/probe/src" "$here/probe/Cargo.toml" -type f -print0 | sort -z | xargs -0 sha256sum | sha256sum)
[ "$now" = "$(cat "$top/.hash" 2>/dev/null)" ] && exit 0
rm -f "$top/.hash"
one() {
    f=$1
    d=$top/${f:-none}
    mkdir -p "$d"
    export CARGO_TARGET_DIR=$d
    (cd "$here/probe" && cargo clean --offline -q -p upon -p probe >/dev/null 2>&1
     cargo build --offline -q --no-default-features --features "$f") >"$d/log" 2>&1
    echo $? >"$d/rc"
}
all=(none filters serde unicode filters,serde filters,unicode serde,unicode filters,serde,unicode)
for f in "${all[@]}"; do
    [ "$f" = none ] && f=
    one "$f" &
done
wait
bad=0
for f in "${all[@]}"; do
    if [ "$(cat "$top/$f/rc")" != 0 ]; then
        echo "features: $f"
        grep -A12 '^error' "$top/$f/log" | head -30
        bad=1
    fi
done
[ $bad = 0 ] && printf '%s\n' "$now" >"$top/.hash"
exit $bad
