#!/bin/bash
# Build the analyser (driver, numeric core) and dump the MIR of the harness + /repo's current tree.
# usage: build.sh   -> .build/mir.json ; exit 3: the analyser itself does not build; exit 4: /repo or the harness does not compile
set -u
V=$(cd "$(dirname "$0")" && pwd)
B=$V/.build
mkdir -p "$B"
export CARGO_NET_OFFLINE=true
SYS=$(rustc +nightly --print sysroot) || exit 3
export LD_LIBRARY_PATH=$SYS/lib
if [ ! -x "$B/driver" ] || [ "$V/driver/main.rs" -nt "$B/driver" ]; then
  rustc +nightly --edition 2024 -O "$V/driver/main.rs" -o "$B/driver.tmp.$$" >"$B/driver.log" 2>&1 || { cat "$B/driver.log"; exit 3; }
  mv "$B/driver.tmp.$$" "$B/driver"
fi
if [ ! -f "$B/numcore.so" ] || [ "$V/engine/numcore.cpp" -nt "$B/numcore.so" ]; then
  g++ -O3 -shared -fPIC -o "$B/numcore.so.tmp.$$" "$V/engine/numcore.cpp" || exit 3
  mv "$B/numcore.so.tmp.$$" "$B/numcore.so"
fi
cd "$V/harness" || exit 3
rm -f "$B/mir.json"
export RUSTC_WORKSPACE_WRAPPER=$B/driver VERIF_MIR_OUT=$B/mir.json VERIF_MIR_CRATE=harness VERIF_MIR_RULES=$V/driver/rules.txt
export RUSTFLAGS="-Zalways-encode-mir -Zmir-opt-level=0 -Zub-checks=no -Awarnings"
rm -rf "$B"/mir/debug/.fingerprint/vec-collections-* "$B"/mir/debug/.fingerprint/harness-*
touch src/lib.rs
cargo +nightly check --offline --target-dir "$B/mir" >"$B/mir.log" 2>&1 || {
  grep -q "panicked at" "$B/mir.log" && { tail -30 "$B/mir.log"; exit 3; }
  grep -A8 '^error' "$B/mir.log" | head -60; exit 4; }
[ -s "$B/mir.json" ] || { tail -20 "$B/mir.log"; exit 4; }
exit 0
