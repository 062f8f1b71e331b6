#!/bin/bash
# check.sh <property id> [quick|thorough]   build from /repo's working tree and run one check
# check.sh replay <property id> <case seed> [tier]
# check.sh build
cd "$(dirname "$0")" || exit 3
V=$(pwd)
export PATH="/usr/local/bin:$HOME/.cargo/bin:$PATH" CARGO_NET_OFFLINE=true CARGO_TERM_COLOR=never CARGO_INCREMENTAL=0
export RUSTUP_TOOLCHAIN=stable-x86_64-unknown-linux-gnu
unset RUSTFLAGS CARGO_ENCODED_RUSTFLAGS RUSTC_WRAPPER
mkdir -p evidence target
case "$1" in
  build|replay) id="$2" ;;
  *) id="$1" ;;
esac

# Cargo trusts mtimes: forget what it knows about the crate under test and everything built on it.
forget() { rm -rf "$1"/release/.fingerprint/ntfs-* "$1"/release/.fingerprint/mon-* "$1"/release/.fingerprint/nostd-*; }

# nostd <variant> <features>: the library with other features, without assertions and overflow checks.
nostd() {
  forget "$V/target/nostd-$1"
  CARGO_TARGET_DIR="$V/target/nostd-$1" cargo build --release --offline --manifest-path nostd/Cargo.toml --features "$2" >"target/nostd-$1.log" 2>&1
}
case "$id" in
  C21) variants=none ;;
  C22) variants="none std time" ;;
  *) variants= ;;
esac
jobs=() others=()
for v in $variants; do
  f=$v; [ $v = none ] && f=
  nostd $v "$f" & jobs+=("$v:$!")
done
if [ "$id" = C21 ]; then
  targets="i686-unknown-linux-gnu powerpc-unknown-linux-gnu s390x-unknown-linux-gnu"
  [ "$1" = replay ] && [ "$4" = thorough ] || [ "${2:-${VERIF_TIER:-quick}}" = thorough ] && targets="$targets x86_64-unknown-linux-gnu"
  for t in $targets; do
    rm -rf "$V/target/miri-$t/miri/$t"/debug/{.fingerprint,build}/{ntfs,nostd}{,-*}
    CARGO_TARGET_DIR="$V/target/miri-$t" bash nostd/miri.sh "$t" >"target/miri-$t.log" 2>&1 & others+=("miri-$t:$!")
  done
fi
if [ "$id" = C21 ]; then
  rm -rf "$V/target/wasm32/wasm32-unknown-unknown"/debug/{.fingerprint,build}/{ntfs,wasm32}{,-*}
  CARGO_TARGET_DIR="$V/target/wasm32" bash wasm32/build.sh >target/wasm32.log 2>&1 & others+=("wasm32:$!")
fi
if [ "$id" = C24 ]; then
  rm -rf "$V"/target/shell/debug/.fingerprint/ntfs-*
  CARGO_TARGET_DIR="$V/target/shell" cargo build --offline --manifest-path /repo/Cargo.toml --features time --example ntfs-shell >target/shell.log 2>&1 & others+=("shell:$!")
fi
features=
[ "$id" = C23 ] && features="--features reader"
forget "$V/target"
CARGO_TARGET_DIR="$V/target" RUSTC_WRAPPER="$V/mon/rustc-wrap.sh" cargo build --release --offline --manifest-path mon/Cargo.toml $features >target/build.log 2>&1
main=$?
for j in "${jobs[@]}"; do
  if ! wait "${j#*:}" && [ $main = 0 ]; then
    cat "target/nostd-${j%%:*}.log"
    # The full build compiles and this one does not: that is what C22 is about.
    if [ "$id" = C22 ] && grep -q '^error: could not compile `ntfs`' "target/nostd-${j%%:*}.log"; then
      echo "VIOLATION property=C22 replay=target/nostd-${j%%:*}.log"
      echo "the build with features '${j%%:*}' does not compile"
      exit 1
    fi
    echo "BUILD FAILED"; exit 3
  fi
done
if [ $main != 0 ]; then
  cat target/build.log; echo "BUILD FAILED"; exit 3
fi
for j in "${others[@]}"; do
  if ! wait "${j#*:}"; then
    cat "target/${j%%:*}.log"; echo "BUILD FAILED"; exit 3
  fi
done
B=target/release/mon
run() { exec "$@"; }
if [ "$id" = C24 ]; then
  # The shell runs without privileges: a place that it can reach, removed at the end.
  MON_SHELL_DIR=$(mktemp -d /tmp/ntfs-shell.XXXXXXXX) || exit 3
  export MON_SHELL_DIR
  trap 'rm -rf -- "$MON_SHELL_DIR"' EXIT
  chmod 755 "$MON_SHELL_DIR"
  install -m 755 target/shell/debug/examples/ntfs-shell "$MON_SHELL_DIR/ntfs-shell"
  run() { "$@"; exit $?; }
fi
case "$1" in
  build) exit 0 ;;
  replay) run "$B" replay "$2" "$3" "${4:-quick}" ;;
  *) tier="${2:-${VERIF_TIER:-quick}}"; run "$B" run "$1" "$tier" "${VERIF_SEED:-1}" "$V" ;;
esac
