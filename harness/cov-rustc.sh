#!/bin/bash
# RUSTC_WRAPPER of the second build: instruments the crate under test, and nothing else, with
# LLVM's sanitizer coverage (callbacks in src/cov.rs).
rustc=$1
shift
case " $* " in
    *" --crate-name dbus_message_parser "*)
        exec "$rustc" "$@" -Cpasses=sancov-module \
            -Cllvm-args=-sanitizer-coverage-level=3 \
            -Cllvm-args=-sanitizer-coverage-trace-pc-guard \
            -Cllvm-args=-sanitizer-coverage-trace-compares
        ;;
esac
exec "$rustc" "$@"
