#!/bin/bash
# Build the driver and dump the facts of the extension crate of $REPO into $1.
# usage: facts.sh OUTDIR [REPO]
set -u
OUT=$1; REPO=${2:-/repo}
HERE=$(cd "$(dirname "$0")" && pwd)
mkdir -p "$OUT"
export CARGO_NET_OFFLINE=true CARGO_HOME=${CARGO_HOME:-/root/.cargo} RUSTUP_HOME=${RUSTUP_HOME:-/root/.rustup}
unset RUSTUP_TOOLCHAIN RUSTC RUSTFLAGS CARGO_ENCODED_RUSTFLAGS CARGO_BUILD_TARGET CARGO_INCREMENTAL
export PGRX_HOME=${PGRX_HOME:-/opt/vp/pgrx-home}
SYS=$(rustc +nightly --print sysroot) || exit 3
DRV="$OUT/driver-target"
( cd "$HERE/driver" && CARGO_TARGET_DIR="$DRV" RUSTC_WRAPPER= RUSTC_WORKSPACE_WRAPPER= cargo +nightly build --offline ) >"$OUT/driver.log" 2>&1 || { tail -40 "$OUT/driver.log"; echo "driver build failed"; exit 3; }
export LD_LIBRARY_PATH="$SYS/lib"
export FACTS_OUT="$OUT" FACTS_CRATES=timescaledb_toolkit
export FACTS_WS=timescaledb_toolkit,tspoint,counter_agg,udd_sketch,uddsketch,hyperloglogplusplus,asap,stats_agg,tdigest,tdigest_lib,time_weighted_average,countminsketch,encodings,flat_serialize,aggregate_builder,scripting_utilities
export FACTS_MIR=$FACTS_WS,pgrx,ordered_float,bincode,ron,serde,serde_core
rm -f "$OUT/timescaledb_toolkit.json"
# cargo does not see that the set of crates compiled with their MIR changed
if [ "$(cat "$OUT/target/.facts_mir" 2>/dev/null)" != "$FACTS_MIR" ]; then
  [ -n "$OUT" ] && rm -rf "$OUT/target"
  mkdir -p "$OUT/target"; echo "$FACTS_MIR" >"$OUT/target/.facts_mir"
fi
# Build a content-synchronised copy: a file is rewritten only when its bytes differ, so that cargo's
# modification-time freshness test sees every change whatever the dates of the files in $REPO are.
python3 "$HERE/sync_tree.py" "$REPO" "$OUT/src" || exit 3
cd "$OUT/src/extension" || exit 3
CARGO_INCREMENTAL=0 CARGO_TARGET_DIR="$OUT/target" RUSTC_WORKSPACE_WRAPPER= RUSTC_WRAPPER="$DRV/debug/facts-driver" \
  cargo +nightly check --lib --offline --locked --no-default-features --features pg16 >"$OUT/check.log" 2>&1
[ -s "$OUT/timescaledb_toolkit.json" ] || { tail -60 "$OUT/check.log"; echo "fact extraction failed"; exit 3; }
