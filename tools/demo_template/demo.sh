#!/bin/bash
# Runs with the repository as working directory: 0 if it behaves, nonzero if it is broken.
H=$(cd "$(dirname "$0")" && pwd)
R=$PWD
T=$(mktemp -d /tmp/demo.XXXXXX) || exit 99
trap 'rm -rf "$T"' EXIT
cp -r "$H/demo" "$T/demo" && sed -i "s#path = \"/repo\"#path = \"$R\"#" "$T/demo/Cargo.toml" || exit 99
cd "$T/demo" || exit 99
export RUSTUP_TOOLCHAIN=stable-x86_64-unknown-linux-gnu CARGO_NET_OFFLINE=true CARGO_TARGET_DIR="$T/target" CARGO_INCREMENTAL=0 RUST_BACKTRACE=0
export PATH="/usr/local/bin:$HOME/.cargo/bin:$PATH"
unset RUSTFLAGS RUSTC_WRAPPER
if ! cargo build --offline >"$T/log" 2>&1; then tail -30 "$T/log"; exit 99; fi
timeout 120 "$T/target/debug/demo"
