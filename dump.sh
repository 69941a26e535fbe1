#!/bin/bash
# dump.sh CFG [REPO] [OUT]: type-checked MIR of the library as JSON
set -u
cfg=$1; repo=${2:-/repo}
V=$(cd "$(dirname "$0")" && pwd)
out=${3:-$V/build/$cfg.json}
case $cfg in
  all) feats="--all-features";;
  def) feats="";;
  mdns) feats="--features mdns";;
  dnssec) feats="--features dnssec";;
  *) echo "unknown configuration $cfg" >&2; exit 2;;
esac
mkdir -p "$V/build"
export LD_LIBRARY_PATH=$(rustc +nightly --print sysroot)/lib
if [ ! -x "$V/build/driver/debug/mirdump" ]; then
  (cd "$V/driver" && cargo +nightly build --offline --target-dir "$V/build/driver" 2>&1 | tail -2)
fi
# Cargo.lock is not tracked in the repository; without one, offline resolution needs the saved copy
[ -e "$repo/Cargo.lock" ] || cp "$V/repo-Cargo.lock" "$repo/Cargo.lock"
export CARGO_TARGET_DIR=$V/build/target-$cfg
# cargo's freshness cache would skip the wrapper
rm -rf "$CARGO_TARGET_DIR/debug/incremental"
[ -d "$CARGO_TARGET_DIR" ] && find "$CARGO_TARGET_DIR" -depth -name '*maybe[-_]dns*' -exec rm -rf {} +
rm -f "$out"
export RUSTC_WORKSPACE_WRAPPER=$V/build/driver/debug/mirdump
export MIRDUMP_CRATE=maybe_dns MIRDUMP_OUT=$out
cargo +nightly check --offline --lib --manifest-path "$repo/Cargo.toml" $feats >"$V/build/$cfg.log" 2>&1
if [ ! -s "$out" ]; then tail -30 "$V/build/$cfg.log" >&2; exit 3; fi
