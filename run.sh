#!/bin/bash
# Rebuilds the checker against the current /repo tree and runs one check.
#   run.sh <ID>            check a property (VERIF_TIER, VERIF_SEED)
#   run.sh replay <file>   re-execute one recorded case
#   run.sh build           only build
cd /verif || exit 2
export RUSTUP_TOOLCHAIN=stable-x86_64-unknown-linux-gnu CARGO_NET_OFFLINE=true CARGO_TERM_COLOR=never
export CARGO_TARGET_DIR=/verif/target CARGO_INCREMENTAL=1
unset RUSTFLAGS RUSTC_WRAPPER CARGO_PROFILE_DEV_DEBUG
mkdir -p work
# Sources are identified by content, not by time stamp.
sum=$(cd /repo && find . -path ./target -prune -o -path ./.git -prune -o -type f \( -name '*.rs' -o -name 'Cargo.*' \) -print0 | sort -z | xargs -0 sha256sum | sha256sum)
if [ "$(cat work/src.sum 2>/dev/null)" != "$sum" ]; then
    cargo clean --offline --manifest-path /verif/mc/Cargo.toml -p rgb-std -p rgb-invoice >/dev/null 2>&1
    echo "$sum" >work/src.sum
fi
if ! cargo build --offline --manifest-path /verif/mc/Cargo.toml >work/build.log 2>&1; then
    grep -A12 '^error' work/build.log | head -80 >&2
    echo "CHECK ERROR: build failed" >&2
    exit 4
fi
case "$1" in
    build) exit 0 ;;
    replay) exec target/debug/mc replay "$2" ;;
    *) exec target/debug/mc check "$1" ;;
esac
