#!/bin/bash
# check.sh build | PROP [--thorough] | replay FILE : builds the checker from /repo's current tree, runs it.
export HOME=${HOME:-/root} PATH=/root/.cargo/bin:$PATH RUSTUP_TOOLCHAIN=stable RUSTC_WRAPPER= CARGO_NET_OFFLINE=true CARGO_INCREMENTAL=0
V=$(cd "$(dirname "$0")" && pwd)
export MC_ROOT=$V CARGO_TARGET_DIR=$V/mc/target
mkdir -p "$V/evidence" "$V/replays"
cd "$V/mc" || exit 2
if ! cargo build --release --offline -q >"$V/mc/target.log" 2>&1; then
    cat "$V/mc/target.log" >&2
    echo "the checker could not be built from /repo" >&2
    exit 2
fi
case "$1" in
build) exit 0 ;;
replay) exec "$CARGO_TARGET_DIR/release/mc" replay "$2" ;;
*) exec "$CARGO_TARGET_DIR/release/mc" check "$@" ;;
esac
