#!/bin/bash
# rustc wrapper: coverage instrumentation for yasai only.
rustc=$1
shift
case " $* " in
*" --crate-name yasai "*)
    exec "$rustc" "$@" -Cpasses=sancov-module -Cllvm-args=-sanitizer-coverage-level=4 \
        -Cllvm-args=-sanitizer-coverage-inline-8bit-counters -Cllvm-args=-sanitizer-coverage-pc-table \
        -Cllvm-args=-sanitizer-coverage-trace-compares -Ccodegen-units=1
    ;;
esac
exec "$rustc" "$@"
