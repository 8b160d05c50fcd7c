#!/bin/bash
# usage: run.sh CRATE PROPERTY [tier]
# Builds the harness crate against /repo's working tree and runs one property's check.
ROOT=$(cd "$(dirname "${BASH_SOURCE[0]}")" && pwd)
CRATE=$1; PROP=$2; TIER=${3:-${VERIF_TIER:-quick}}
export VERIF_ROOT=$ROOT VERIF_SEED=${VERIF_SEED:-1} VERIF_TIER=$TIER
export RUSTUP_TOOLCHAIN=stable-x86_64-unknown-linux-gnu CARGO_NET_OFFLINE=true CARGO_INCREMENTAL=0
export CARGO_TERM_COLOR=never RUSTC_WRAPPER= PATH="/root/.cargo/bin:$PATH"
export CARGO_TARGET_DIR=$ROOT/.build/$CRATE
mkdir -p "$ROOT/.build/logs" "$ROOT/evidence"
LOG=$ROOT/.build/logs/$CRATE-$PROP
if ! (cd "$ROOT/harness/$CRATE" && cargo build --offline) >"$LOG.build" 2>&1; then
    tail -40 "$LOG.build"
    echo "ERROR property=$PROP the harness does not build"
    exit 2
fi
"$CARGO_TARGET_DIR/debug/$CRATE" check "$PROP" --tier "$TIER" 2>"$LOG.err"
exit $?
