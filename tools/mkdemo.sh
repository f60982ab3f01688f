#!/bin/bash
# mkdemo.sh ID: (re)creates the build kit of seeded/ID from its main.rs and deps.toml ([dependencies] lines).
set -e
root="$(cd "$(dirname "$0")/.." && pwd)"; d="$root/seeded/$1"
rm -rf "$d/kit"; mkdir -p "$d/kit/h/demo/src" "$d/kit/h/.cargo"
cp -r "$root/shims" "$d/kit/shims"
cp "$root/harness/vendor.py" "$d/kit/h/"; cp "$root/harness/.cargo/config.toml" "$d/kit/h/.cargo/"
{ printf '[workspace]\n[package]\nname = "demo"\nversion = "0.1.0"\nedition = "2021"\n[profile.dev]\ndebug = 0\n[dependencies]\n'; cat "$d/deps.toml"; } > "$d/kit/h/demo/Cargo.toml"
cat > "$d/demo.sh" <<'S'
#!/bin/bash
# Builds main.rs against /repo's crates in a scratch directory and runs it: 0 = the property holds.
here="$(cd "$(dirname "$0")" && pwd)"
work="$(mktemp -d)" || exit 2
trap 'rm -rf "$work"' EXIT
export HOME="${HOME:-/root}" PATH="/root/.cargo/bin:$PATH" CARGO_NET_OFFLINE=true CARGO_TERM_COLOR=never RUST_BACKTRACE=0
unset RUSTUP_TOOLCHAIN RUSTFLAGS RUSTC_WRAPPER CARGO_TARGET_DIR NUM_CPUS LOG_PANIC
cp -r "$here/kit/." "$work/" && mkdir -p "$work/h/demo/src" && cp "$here/main.rs" "$work/h/demo/src/main.rs" || exit 2
cd "$work/h/demo" || exit 2
python3 ../vendor.py $VENDOR_FLAGS || exit 2
cargo +stable build --offline --quiet --target-dir "$work/target" 2> "$work/log" || { grep -E '^error' -A12 "$work/log" | head -60 >&2; exit 2; }
[ -n "$SAVE_LOCK" ] && cp Cargo.lock "$SAVE_LOCK"
timeout 120 "$work/target/debug/demo"
S
cp "$root/harness/seed.lock" "$d/kit/h/demo/Cargo.lock"
VENDOR_FLAGS=--all SAVE_LOCK="$d/kit/h/demo/Cargo.lock" bash "$d/demo.sh"
