#!/bin/bash
# check.sh <property id>...   decide properties of /repo's current tree
# check.sh --setup            build the MIR driver and warm the dependency cache
set -u
V=$(cd "$(dirname "$0")" && pwd)
REPO=${VERIF_REPO:-/repo}
B=$V/build
mkdir -p "$B" "$V/evidence"
exec 9>"$B/.lock"; flock 9
export CARGO_NET_OFFLINE=true
if [ ! -x "$B/mirdump" ] || [ "$V/driver/mirdump.rs" -nt "$B/mirdump" ]; then
  rustc +nightly -O --edition 2021 "$V/driver/mirdump.rs" -o "$B/mirdump" 2>"$B/driver.log" || { cat "$B/driver.log" >&2; exit 2; }
fi
LOCKTMP=
if [ ! -f "$REPO/Cargo.lock" ]; then cp "$V/Cargo.lock.repo" "$REPO/Cargo.lock"; LOCKTMP=1; fi
rm -rf "$B/target/debug/.fingerprint"/rusty-source-map-* "$B/target/debug/build"/rusty-source-map* "$B/target/debug/incremental"/rusty_source_map-* "$B/mir.json"
( cd "$REPO" && LD_LIBRARY_PATH=$(rustc +nightly --print sysroot)/lib RUSTC_WORKSPACE_WRAPPER="$B/mirdump" \
  MIRDUMP_CRATE=rusty_source_map MIRDUMP_OUT="$B/mir.json" CARGO_TARGET_DIR="$B/target" \
  cargo +nightly check --lib --offline ) >"$B/cargo.log" 2>&1
rc=$?
[ -n "$LOCKTMP" ] && rm -f "$REPO/Cargo.lock"
if [ $rc -ne 0 ] || [ ! -s "$B/mir.json" ]; then echo "MIR extraction failed:" >&2; tail -40 "$B/cargo.log" >&2; exit 2; fi
[ "${1:-}" = --setup ] && { echo "driver built, dependencies checked"; exit 0; }
cd "$V" && PYTHONDONTWRITEBYTECODE=1 exec python3 -m sa.main "$B/mir.json" "$@"
