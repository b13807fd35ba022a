#!/bin/bash
# run.sh <property> quick|thorough : rebuilds the harness against /repo's
# current working tree and runs one check. Exit 0 held, 1 violation, other error.
cd "$(dirname "$0")" || exit 2
export RUSTUP_TOOLCHAIN=stable CARGO_NET_OFFLINE=true
export RUSTC_WRAPPER="$PWD/rustc-wrap.sh" CARGO_TARGET_DIR="$PWD/target"
unset RUSTFLAGS CARGO_ENCODED_RUSTFLAGS
mkdir -p target evidence replays
(
    flock 9
    cd harness && cargo build --release --offline >../target/build.log 2>&1
) 9>target/.run.lock
if [ $? -ne 0 ]; then
    echo "harness build failed:" >&2
    tail -40 target/build.log >&2
    exit 2
fi
[ "$1" = "--build" ] && exit 0
exec target/release/vh run "$1" "${2:-quick}" "${VERIF_SEED:-1}" "$PWD"
