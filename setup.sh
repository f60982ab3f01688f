#!/bin/bash
# Lays out the dependencies and builds every check once. A crate that does not build here is reported by its own checks.
cd "$(dirname "$0")" || exit 2
mkdir -p evidence replays
python3 harness/vendor.py >&2 || exit 2
python3 harness/fresh.py
for d in harness/k-*/; do
  c=$(basename "$d")
  if [ -f "harness/$c/open.list" ]; then python3 harness/open.py $(cat "harness/$c/open.list"); fi
  (cd "harness/$c" && env -u RUSTUP_TOOLCHAIN -u RUSTFLAGS -u CARGO_TARGET_DIR cargo +stable build --offline --quiet > "../build-$c.log" 2>&1) || { echo "$c: build failed" >&2; tail -5 "harness/build-$c.log" >&2; }
done
exit 0
