#!/bin/bash
# check.sh <ID> [quick|thorough]      explore one property
# check.sh replay <file|case>         re-run one recorded case
# Always rebuilds the explorer against /repo's current working tree.
here=$(cd "$(dirname "$0")" && pwd) || exit 2
cd "$here/mc" || exit 2
export CARGO_NET_OFFLINE=true
log=$(mktemp) || exit 2
if ! cargo build --offline --quiet --profile checked >"$log" 2>&1; then
    cat "$log" >&2
    rm -f "$log"
    echo "the explorer does not build against /repo" >&2
    exit 2
fi
rm -f "$log"
export MC_ROOT="$here"
if [ "$1" = replay ]; then
    exec ./target/checked/mc replay "$2"
fi
exec ./target/checked/mc check "$1" "${2:-${VERIF_TIER:-quick}}"
