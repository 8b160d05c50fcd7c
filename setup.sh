#!/bin/bash
# Builds every harness crate against /repo's working tree (offline).
ROOT=$(cd "$(dirname "${BASH_SOURCE[0]}")" && pwd)
export RUSTUP_TOOLCHAIN=stable-x86_64-unknown-linux-gnu CARGO_NET_OFFLINE=true CARGO_INCREMENTAL=0
export CARGO_TERM_COLOR=never RUSTC_WRAPPER= PATH="/root/.cargo/bin:$PATH"
mkdir -p "$ROOT/.build/logs" "$ROOT/evidence"
rc=0
for d in "$ROOT"/harness/h*/; do
    c=$(basename "$d")
    if ! (cd "$d" && CARGO_TARGET_DIR="$ROOT/.build/$c" cargo build --offline) >"$ROOT/.build/logs/setup-$c" 2>&1; then
        tail -30 "$ROOT/.build/logs/setup-$c"; echo "ERROR $c does not build"; rc=1
    fi
done
exit $rc
