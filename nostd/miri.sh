#!/bin/bash
# miri.sh <target> <arguments>: the harness interpreted for a target. CARGO_TARGET_DIR says where it is built.
T=$1; shift
unset RUSTC_WRAPPER CARGO_ENCODED_RUSTFLAGS RUSTUP_TOOLCHAIN
export CARGO_NET_OFFLINE=true CARGO_TERM_COLOR=never
export MIRIFLAGS="-Zmiri-disable-isolation" RUSTFLAGS=
if [ "$T" != x86_64-unknown-linux-gnu ]; then
  # The library has no unsafe code: here it is about results.
  export MIRIFLAGS="-Zmiri-disable-isolation -Zmiri-disable-stacked-borrows -Zmiri-disable-validation"
  export RUSTFLAGS="-Zmir-opt-level=3 -Zinline-mir=yes -Zcross-crate-inline-threshold=always"
fi
exec cargo +nightly miri run -q --offline --manifest-path "$(dirname "$0")/Cargo.toml" --target "$T" -- "$@"
