#!/bin/bash
# run.sh CRATE build | CRATE MODE SEED: interpret a history program under Miri
here=$(cd "$(dirname "$0")/.." && pwd)
cd "$here/$1" || exit 2
export CARGO_TARGET_DIR="${VH_WORK:-$here/.work}/miri"
unset RUSTUP_TOOLCHAIN RUSTFLAGS CARGO_INCREMENTAL
flags="-Zmiri-disable-isolation -Zmiri-permissive-provenance -Zmiri-ignore-leaks"
if [ "$2" = build ]; then
  MIRIFLAGS="$flags" exec cargo +nightly miri run --offline -q -- evidence 0
fi
MIRIFLAGS="$flags -Zmiri-seed=$3" exec cargo +nightly miri run --offline -q -- "${@:2}"
