#!/bin/sh
# RUSTC_WRAPPER: coverage counters and comparison tracing for the crate under test only.
rustc="$1"
shift
case " $* " in
*" --crate-name lyra2 "*)
    exec "$rustc" "$@" -Ccodegen-units=1 -Cpasses=sancov-module -Cllvm-args=-sanitizer-coverage-level=4 -Cllvm-args=-sanitizer-coverage-inline-8bit-counters -Cllvm-args=-sanitizer-coverage-trace-compares -Cllvm-args=-max-loads-per-memcmp=0
    ;;
*" --crate-name guided "*)
    exec "$rustc" "$@" -Clink-arg=-Wl,--wrap=memcmp -Clink-arg=-Wl,--wrap=bcmp
    ;;
esac
exec "$rustc" "$@"
