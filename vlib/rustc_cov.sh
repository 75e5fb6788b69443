#!/bin/sh
# RUSTC_WRAPPER: edge counters and comparison hooks in the library under test
# and in the parser combinators it is made of (see harness/src/fuzz.rs).
for a in "$@"; do
    case "$prev $a" in
    "--crate-name gufo_snmp" | "--crate-name nom")
        exec "$@" -Cpasses=sancov-module -Cllvm-args=-sanitizer-coverage-level=3 \
            -Cllvm-args=-sanitizer-coverage-inline-8bit-counters \
            -Cllvm-args=-sanitizer-coverage-trace-compares
        ;;
    esac
    prev=$a
done
exec "$@"
