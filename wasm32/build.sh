#!/bin/bash
# The library and the harness for a 32-bit machine. CARGO_TARGET_DIR says where they are built.
# The toolchain has the source of the standard library, but not the library for this target.
set -e -o pipefail
T=wasm32-unknown-unknown
unset RUSTC_WRAPPER CARGO_ENCODED_RUSTFLAGS RUSTUP_TOOLCHAIN
export CARGO_NET_OFFLINE=true CARGO_TERM_COLOR=never RUSTFLAGS= RUSTC_BOOTSTRAP=1
here=$(cd "$(dirname "$0")" && pwd)
host=$(rustc +nightly --print sysroot)
root="$CARGO_TARGET_DIR/sysroot"
if [ ! -f "$root/done" ]; then
  (cd "$host/lib/rustlib/src/rust/library" && CARGO_TARGET_DIR="$CARGO_TARGET_DIR/std" RUSTFLAGS="-Zforce-unstable-if-unmarked -Cdebuginfo=0" \
    cargo +nightly build -q --release --offline --locked --manifest-path sysroot/Cargo.toml --no-default-features --target "$T")
  mkdir -p "$root/lib/rustlib/$T/lib"
  ln -sfn "$host/lib/rustlib/x86_64-unknown-linux-gnu" "$root/lib/rustlib/x86_64-unknown-linux-gnu"
  find "$CARGO_TARGET_DIR/std/$T" \( -name "*.rlib" -o -name "*.rmeta" \) -exec cp {} "$root/lib/rustlib/$T/lib/" \;
  touch "$root/done"
fi
unset RUSTC_BOOTSTRAP
export RUSTFLAGS="--sysroot $root"
exec cargo +nightly build -q --offline --manifest-path "$here/Cargo.toml" --target "$T"
