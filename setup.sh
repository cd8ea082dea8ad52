#!/bin/bash
# Builds every check against /repo's working tree (offline).
cd "$(dirname "$0")" || exit 2
. ./env.sh
(cd sched && CARGO_TARGET_DIR=$CARGO_TARGET_DIR/sched cargo build --release --offline --bins)
cd harness && cargo build --release --offline --bins
