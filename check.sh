#!/bin/bash
# check.sh ID [TIER]: rebuild, then search for a violation of property ID.
here=$(cd "$(dirname "$0")" && pwd)
cd "$here" || exit 2
out=$(bash "$here/build.sh" 2>&1) || { printf '%s\n' "$out" >&2; exit 2; }
tier=${2:-${VERIF_TIER:-quick}}
if [ "$tier" = thorough ]; then
    # Without it, the search is by random choices only.
    bash "$here/build.sh" --fuzz >&2 && export VT_FUZZ=$here/target/fuzz/debug/vtfuzz
fi
ulimit -v 8000000
ulimit -c 0
export VT_DIR=$here
exec "$here/target/debug/vt" check "$1" --tier "$tier"
