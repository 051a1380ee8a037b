#!/bin/sh
# Adds SanitizerCoverage instrumentation to the crates under simulation; everything else is compiled as usual.
rustc="$1"; shift
name=""; prev=""
for a in "$@"; do
  [ "$prev" = "--crate-name" ] && name="$a"
  prev="$a"
done
case "$name" in
  kms|sut|once_cell|rand|rand_core|getrandom|rustc_hash)
    exec "$rustc" "$@" -C passes=sancov-module -C llvm-args=-sanitizer-coverage-level=3 \
      -C llvm-args=-sanitizer-coverage-trace-pc-guard -C llvm-args=-sanitizer-coverage-trace-compares \
      -C llvm-args=-sanitizer-coverage-trace-loads -C llvm-args=-sanitizer-coverage-trace-stores -C codegen-units=1 ;;
  ksim) exec "$rustc" "$@" -C link-arg=-rdynamic ;;
  *) exec "$rustc" "$@" ;;
esac
