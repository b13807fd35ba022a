#!/bin/bash
# RUSTC_WRAPPER of the harness build: compiles the crate under test (and only
# it) with SanitizerCoverage edge callbacks, used for deterministic work
# accounting and as feedback for the byte-level fuzzing checks.
rustc="$1"; shift
name=""
prev=""
for a in "$@"; do
    if [ "$prev" = "--crate-name" ]; then name="$a"; break; fi
    prev="$a"
done
if [ "$name" = "little_exif" ]; then
    exec "$rustc" "$@" -Cpasses=sancov-module \
        -Cllvm-args=-sanitizer-coverage-level=3 \
        -Cllvm-args=-sanitizer-coverage-trace-pc-guard
fi
exec "$rustc" "$@"
