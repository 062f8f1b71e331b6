#!/bin/bash
# Adds SanitizerCoverage (basic-block callbacks) to the library under test and to the crate that
# instantiates its generics; everything else is compiled as is.
rustc="$1"; shift
name=""; prev=""
for a in "$@"; do [ "$prev" = "--crate-name" ] && name="$a"; prev="$a"; done
case "$name" in
  ntfs|mon) exec "$rustc" "$@" -C passes=sancov-module -C llvm-args=-sanitizer-coverage-level=3 -C llvm-args=-sanitizer-coverage-trace-pc-guard ;;
  *) exec "$rustc" "$@" ;;
esac
