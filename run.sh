#!/bin/bash
# run.sh CRATE PROPERTY [replay FILE]: builds the check from /repo's current tree and runs it.
export VERIF_ROOT="$(cd "$(dirname "${BASH_SOURCE[0]}")" && pwd)"
export HOME="${HOME:-/root}" PATH="/root/.cargo/bin:/usr/local/sbin:/usr/local/bin:/usr/sbin:/usr/bin:/sbin:/bin"
export CARGO_NET_OFFLINE=true CARGO_TERM_COLOR=never RUST_BACKTRACE=0 RUST_LOG=off
export VERIF_SEED="${VERIF_SEED:-1}" VERIF_TIER="${VERIF_TIER:-quick}"
unset RUSTUP_TOOLCHAIN RUSTFLAGS RUSTC_WRAPPER CARGO_TARGET_DIR NUM_CPUS LOG_PANIC
crate="$1"; id="$2"
cd "$VERIF_ROOT/harness/$crate" || exit 2
if [ -z "$VERIF_NOVENDOR" ]; then python3 ../vendor.py >&2 || { echo "could not lay out dependencies" >&2; exit 2; }; fi
python3 ../fresh.py >&2
if [ -f open.list ]; then python3 ../open.py $(cat open.list) >&2 || { echo "build failed" >&2; exit 2; }; fi
if ! cargo +stable build --offline --quiet > ../build-$crate.log 2>&1; then
  grep -E '^error' -A12 ../build-$crate.log | head -60 >&2
  echo "build failed" >&2
  exit 2
fi
if [ "$3" = replay ]; then exec ../target/debug/$crate replay "$id" "$4"; fi
exec ../target/debug/$crate run "$id"
