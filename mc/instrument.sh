#!/usr/bin/env bash
# rustc wrapper: scheduling points (coverage callbacks) in the code under test only
rustc="$1"; shift
name=""
prev=""
for a in "$@"; do
    [ "$prev" = --crate-name ] && name="$a"
    prev="$a"
done
case "$name" in
lcms2|mcglue|once_cell|lazy_static|parking_lot|parking_lot_core|lock_api|spin)
    exec "$rustc" "$@" -C passes=sancov-module -C llvm-args=-sanitizer-coverage-level=3 \
        -C llvm-args=-sanitizer-coverage-trace-pc-guard \
        -C llvm-args=-sanitizer-coverage-trace-loads -C llvm-args=-sanitizer-coverage-trace-stores \
        -C embed-bitcode=no -C codegen-units=1;;
*) exec "$rustc" "$@";;
esac
