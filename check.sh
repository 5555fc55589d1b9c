#!/bin/bash
# usage: check.sh PROPERTY [quick|thorough] [case]
# Builds the harness against /repo's current working tree and runs one property's check.
# Exit 0: held on everything explored; 1: violation (VIOLATION line); 2/3: no verdict.
set -u
prop=${1:?property}
tier=${2:-${VERIF_TIER:-quick}}
here=$(cd "$(dirname "$0")" && pwd)
cd "$here" || exit 2
export HOME=${HOME:-/root}
export PATH="/usr/local/bin:/usr/bin:/bin:/usr/sbin:/sbin:/root/.cargo/bin:$PATH"
export CARGO_NET_OFFLINE=true CARGO_TERM_COLOR=never CARGO_INCREMENTAL=0 RUSTC_WRAPPER=
export RUSTUP_TOOLCHAIN=stable-x86_64-unknown-linux-gnu
unset RUSTFLAGS RUSTDOCFLAGS LD_LIBRARY_PATH RUST_BACKTRACE
export VH_WORK="$here/.work" VH_EVIDENCE="$here/evidence"
mkdir -p .work evidence
rm -f "evidence/$prop.json"

fail() { echo "BUILD-FAILED $1"; tail -40 "$2"; exit 2; }

runtime=0 full=1
case $prop in
  C01|C02|C06|C07|C08|C09|C10|C14|C15|C16) full=0 ;;
esac
case $prop in
  C03|C04|C12|C13|C18) runtime=1 ;;
  C14|C15) runtime=2 ;;
esac

if [ $runtime != 0 ]; then
  (cd rtlib && CARGO_TARGET_DIR="$VH_WORK/rt" cargo build --offline --release) >.work/rt.log 2>&1 &
  rt=$!
fi
mi=
case $prop in
  C14|C15) bash tools/miri.sh rtmiri build >.work/miri.log 2>&1 & mi=$! ;;
esac
if [ $runtime = 2 ]; then
  if [ $prop = C14 ]; then
    (cd rtlib && RUSTUP_TOOLCHAIN=nightly RUSTFLAGS="-Zsanitizer=thread -Cunsafe-allow-abi-mismatch=sanitizer" \
      CARGO_TARGET_DIR="$VH_WORK/rt_tsan" cargo build --offline --release) >.work/rt_tsan.log 2>&1 &
    ts=$!
  fi
fi
feat=""
[ $full = 0 ] && feat="--no-default-features"
(cd harness && CARGO_TARGET_DIR="$VH_WORK/target" cargo build --offline $feat) >.work/build.log 2>&1 || fail harness .work/build.log
if [ $runtime = 1 ]; then
  wait $rt || fail runtime .work/rt.log
  { cc -O1 -c native/driver.c -o .work/driver.o &&
    cc -fuse-ld=lld -rdynamic -o .work/host .work/driver.o -Wl,--whole-archive .work/rt/release/libvrtlib.a -Wl,--no-whole-archive \
      -lpthread -lm -ldl -Wl,--wrap=__tribute_alloc -Wl,--wrap=__tribute_dealloc -Wl,--wrap=read -Wl,--wrap=write; } >.work/host.log 2>&1 || fail host .work/host.log
fi
if [ $runtime = 2 ]; then
  wait $rt || fail runtime .work/rt.log
  wrap="-Wl,--wrap=posix_memalign -Wl,--wrap=free -Wl,--wrap=read -Wl,--wrap=write"
  { cc -O1 -c native/rt.c -o .work/rt.o &&
    cc -fuse-ld=lld -o .work/rthost .work/rt.o -Wl,--whole-archive .work/rt/release/libvrtlib.a -Wl,--no-whole-archive -lpthread -lm -ldl $wrap -Wl,--wrap=pthread_key_create; } >.work/rthost.log 2>&1 || fail rthost .work/rthost.log
  if [ $prop = C14 ]; then
    wait $ts || fail "runtime (ThreadSanitizer)" .work/rt_tsan.log
    { clang -O1 -g -DTSAN -fsanitize=thread -c native/rt.c -o .work/rtt.o &&
      clang -fsanitize=thread -fuse-ld=lld -o .work/rthost_tsan .work/rtt.o -Wl,--whole-archive .work/rt_tsan/release/libvrtlib.a -Wl,--no-whole-archive -lpthread -lm -ldl $wrap; } >.work/rthost_tsan.log 2>&1 || fail rthost_tsan .work/rthost_tsan.log
  fi
fi
if [ -n "$mi" ]; then
  # a failing run is judged by the check itself; only a program that cannot be built is not
  wait $mi || { grep -q 'could not compile' .work/miri.log && fail miri .work/miri.log; }
  export VH_MIRI="$here/tools/miri.sh"
fi
exec .work/target/debug/vharness check "$prop" "$tier" "${@:3}"
