#!/bin/bash
# Builds the checker from /repo's working tree and runs one property: ./run.sh C01 [--replay file]
cd "$(dirname "$0")" || exit 2
. /opt/vp/env.sh
export VERIF_ROOT="$PWD" CARGO_TARGET_DIR="$PWD/target" CARGO_INCREMENTAL=0
log="$PWD/target/build.$$.log"
mkdir -p target
if ! cargo build --release --offline --manifest-path mc/Cargo.toml >"$log" 2>&1; then
    # macros are expanded here: one which does not compile must not prevent all the other checks
    if cargo build --release --offline --manifest-path mc/Cargo.toml --features no-macros >/dev/null 2>&1; then
        rm -f "$log"
        exec target/release/mc "$@"
    fi
    cat "$log"
    rm -f "$log"
    echo "ERROR: the checker does not build against /repo"
    exit 2
fi
rm -f "$log"
exec target/release/mc "$@"
