#!/bin/bash
# Builds the simulator against /repo's working tree in four variants (dbg, rel, be, chk).
# usage: build.sh [variant...]     products: $SIM_TARGET/<variant>/{debug,release}/simcheck
V=$(cd "$(dirname "$0")" && pwd)
T=${SIM_TARGET:-$V/target}
mkdir -p "$T"
RUSTUP=/root/.rustup/toolchains
export RUSTUP_TOOLCHAIN=1.70.0 RUSTC=$RUSTUP/1.69.0-x86_64-unknown-linux-gnu/bin/rustc
CARGO=$RUSTUP/1.70.0-x86_64-unknown-linux-gnu/bin/cargo
[ -x "$CARGO" ] || CARGO=cargo
[ -x "$RUSTC" ] || { unset RUSTC RUSTUP_TOOLCHAIN; CARGO=cargo; }
export RUSTC_WRAPPER=$V/rustc-wrap.sh CARGO_NET_OFFLINE=true CARGO_INCREMENTAL=0
unset RUSTFLAGS CARGO_ENCODED_RUSTFLAGS CARGO_BUILD_TARGET
cd "$V/sim" || exit 2
build() { # variant, cargo arguments
  v=$1; shift
  CARGO_TARGET_DIR=$T/$v "$CARGO" build --locked --offline "$@" >"$T/$v.log" 2>&1
}
pids=()
for v in ${@:-dbg rel be chk}; do
  case $v in
    dbg) build dbg & ;;
    # the newest stable compiler, whose debug builds check pointers, indexes and preconditions of unsafe code
    chk) ( S=$RUSTUP/stable-x86_64-unknown-linux-gnu/bin
           if [ -x $S/cargo ]; then RUSTUP_TOOLCHAIN=stable; RUSTC=$S/rustc; CARGO=$S/cargo; fi
           build chk ) & ;;
    rel) build rel --release & ;;
    be) build be --release --features be & ;;
    *) echo "unknown variant $v"; exit 2 ;;
  esac
  pids+=($!)
done
r=0
for p in "${pids[@]}"; do wait "$p" || r=1; done
[ $r = 0 ] || { for v in ${@:-dbg rel be chk}; do grep -A6 -E "^error" "$T/$v.log" | cut -c1-240 | head -n 24; done; }
exit $r
