#!/bin/bash
# A rustc wrapper: compiles the program under test with coverage counters.
case " $* " in
*" --crate-name solana_slashing_program "*)
    exec "$@" -Cpasses=sancov-module -Cllvm-args=-sanitizer-coverage-level=3 \
        -Cllvm-args=-sanitizer-coverage-inline-8bit-counters -Ccodegen-units=1
    ;;
esac
exec "$@"
