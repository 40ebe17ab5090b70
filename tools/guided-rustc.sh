#!/bin/sh
# RUSTC_WRAPPER: instruments the code under test, nothing else.
case " $* " in
*" --crate-name shogi_core "*)
    exec "$@" -Cpasses=sancov-module -Cllvm-args=-sanitizer-coverage-level=3 -Cllvm-args=-sanitizer-coverage-inline-8bit-counters -Cllvm-args=-sanitizer-coverage-trace-compares ;;
*) exec "$@" ;;
esac
