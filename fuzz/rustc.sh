#!/bin/bash
# rustc wrapper: only the library under test is instrumented for coverage
case " $* " in
*" --crate-name ruplicity "*)
    exec "$@" -Cpasses=sancov-module -Cllvm-args=-sanitizer-coverage-level=4 \
        -Cllvm-args=-sanitizer-coverage-inline-8bit-counters -Cllvm-args=-sanitizer-coverage-pc-table \
        -Cllvm-args=-sanitizer-coverage-trace-compares ;;
*) exec "$@" ;;
esac
