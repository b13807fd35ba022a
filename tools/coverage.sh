#!/bin/bash
# coverage.sh [dir] : line coverage of /repo/src by a part of each quick check.
# Prints the lines that were never executed. Needs about 5 minutes.
d=${1:-/tmp/cov}; mkdir -p $d/root/evidence $d/root/replays $d/prof $d/out; touch $d/root/known_findings.txt
cd "$(dirname "$0")/../harness" || exit 2
export RUSTUP_TOOLCHAIN=stable CARGO_NET_OFFLINE=true CARGO_TARGET_DIR=$d/target
RUSTFLAGS="-C instrument-coverage" LLVM_PROFILE_FILE=/dev/null cargo build --release --offline 2>&1 | tail -1
B=$(rustc --print sysroot)/lib/rustlib/x86_64-unknown-linux-gnu/bin
for p in $(seq -f P%02g 1 28); do case $p in P22|P28) for k in 0 1 2 3 4 5 6 7; do echo $p $k 8; done;; P23) echo $p 0 8;; *) echo $p 0 4;; esac; done |
    xargs -P 8 -L1 sh -c "LLVM_PROFILE_FILE=$d/prof/\$0.\$1.profraw timeout 800 $d/target/release/vh worker \$0 quick 1 \$1 $d/out $d/root \$2 >/dev/null 2>&1"
$B/llvm-profdata merge -sparse $d/prof/*.profraw -o $d/all.profdata
$B/llvm-cov show $d/target/release/vh -instr-profile=$d/all.profdata --sources /repo/src --show-line-counts --use-color=0 2>/dev/null | grep -E "^/repo|^ +[0-9]+\| +0\|"
