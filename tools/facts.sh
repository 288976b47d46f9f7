#!/bin/bash
# facts.sh OUT.json: builds the driver when needed and dumps the facts of the current tree of /repo.
set -e
HERE=$(cd "$(dirname "$0")/.." && pwd)
OUT=$1
DBG=false; if [ "$SYNFACTS_VARIANT" = debug ]; then DBG=true; fi
WORK=${VERIF_WORK:-$HERE/.work}
mkdir -p "$WORK"
export HOME=${HOME:-/root} PATH=/root/.cargo/bin:$PATH
export CARGO_NET_OFFLINE=true CARGO_TERM_COLOR=never RUSTC_WRAPPER= RUSTUP_TOOLCHAIN=nightly-x86_64-unknown-linux-gnu
unset RUSTFLAGS CARGO_ENCODED_RUSTFLAGS CARGO_BUILD_TARGET RUSTC_WORKSPACE_WRAPPER
DRV=$WORK/driver-target/release/synfacts
(cd "$HERE/driver" && CARGO_TARGET_DIR=$WORK/driver-target cargo build --offline --release -q)
python3 "$HERE/tools/mkview.py" "$WORK/view"
export LD_LIBRARY_PATH=$(rustc --print sysroot)/lib
rm -f "$OUT"
run() {
  # the wrapper must see the crate: never trust cargo's freshness for it
  rm -rf "$WORK"/view-target/debug/.fingerprint/synedrion-* "$WORK"/view-target/debug/build/synedrion
  (cd "$WORK/view" && SYNFACTS_OUT=$OUT RUSTC_WORKSPACE_WRAPPER=$DRV CARGO_TARGET_DIR=$WORK/view-target \
    CARGO_PROFILE_DEV_DEBUG_ASSERTIONS=$DBG CARGO_PROFILE_DEV_OVERFLOW_CHECKS=$DBG CARGO_PROFILE_DEV_DEBUG=1 \
    CARGO_INCREMENTAL=0 cargo check --offline -q --lib --features k256,bip32,dev)
}
run
if [ ! -s "$OUT" ]; then
  rm -rf "$WORK/view-target"
  run
fi
test -s "$OUT" || { echo "facts.sh: the driver produced no facts" >&2; exit 3; }
