#!/bin/bash
# Usage: check.sh ID|build [quick|thorough]: rebuilds the harness from /repo's working tree and runs one check.
set -u
cd "$(dirname "$0")/mc" || exit 2
export CARGO_TARGET_DIR="$PWD/target" CARGO_NET_OFFLINE=true VMC_VERIF="$(cd .. && pwd)"
# one build at a time
exec 9>"$PWD/.lock"
flock 9
python3 gen.py || exit 2
log="$PWD/target/build.log"
mkdir -p "$PWD/target"
if ! cargo build --offline --locked -q >"$log" 2>&1; then
    echo "the harness does not build against /repo:" >&2
    grep -E -A12 '^error' "$log" | head -60 >&2
    exit 2
fi
flock -u 9
[ "$1" = build ] && exit 0
exec ./target/debug/mc check "$1" "${2:-${VERIF_TIER:-quick}}"
