#!/bin/bash
# ./check.sh <property> [--list | --replay FILE]: builds the check against /repo's working tree and runs it.
ID=${1:?usage: check.sh PROPERTY}
shift
cd "$(dirname "$0")" || exit 2
. ./env.sh
bin=$(echo "$ID" | tr 'A-Z' 'a-z')
log=$CARGO_TARGET_DIR/build-$bin.log
extra=()
[ "$bin" = c14 ] && extra=(--bin cli)
# The checks that explore schedules are built with the stand-in for std; should the tree not compile
# with it, its locks are not seen and the other scheduling points remain.
if [ "$bin" = c15 ] || [ "$bin" = c18 ]; then
    (cd sched && CARGO_TARGET_DIR=$CARGO_TARGET_DIR/sched cargo build --release --offline --bin "$bin") >"$log" 2>&1 && exec "$CARGO_TARGET_DIR/sched/release/$bin" "$@"
    echo "$ID: built without the stand-in for std (see $log)" >&2
    log=$log.plain
fi
(cd harness && cargo build --release --offline --bin "$bin" "${extra[@]}") >"$log" 2>&1 || {
    tail -40 "$log" >&2
    echo "$ID: the check does not build against this tree" >&2
    exit 2
}
exec "$CARGO_TARGET_DIR/release/$bin" "$@"
