#!/bin/bash
# usage: build_harness.sh ID OUTDIR : builds /repo's crate with harness/ID.rs into OUTDIR/{h.ll,h.so}
set -e
V=$(cd "$(dirname "$0")" && pwd)
ID=$1; OUT=$2
export HOME="${HOME:-/root}" PATH="/root/.cargo/bin:$PATH"
export RUSTUP_TOOLCHAIN=stable-x86_64-unknown-linux-gnu CARGO_NET_OFFLINE=true CARGO_TERM_COLOR=never RUSTC_WRAPPER=
unset CARGO_INCREMENTAL CARGO_PROFILE_DEV_DEBUG CARGO_PROFILE_DEV_OPT_LEVEL
mkdir -p "$OUT"
{ cat "$V/harness/prelude.rs"
  for s in nsim_stub best_lag_stub; do
    if ! grep -q "fn $s" "$V/harness/$ID.rs"; then
      case $s in
        nsim_stub) echo "pub fn nsim_stub(_: &ndarray::Array2<f64>, _: &ndarray::Array2<f64>) -> Option<crate::patch_similarity_comparator::PatchSimilarityResult> { None }";;
        best_lag_stub) echo "pub fn best_lag_stub(_: &[f64], _: &[f64]) -> Option<Option<i64>> { None }";;
      esac
    fi
  done
  for u in $(sed -n 's|^//@ use: ||p' "$V/harness/$ID.rs"); do cat "$V/harness/$u.rs"; done
  cat "$V/harness/$ID.rs"
} > "$OUT/h.rs"
R=${VERIF_REPO:-/repo}
made=
if [ ! -e "$R/Cargo.lock" ]; then
  if [ -e /opt/vp/Cargo.lock ]; then cp /opt/vp/Cargo.lock "$R/Cargo.lock"; else cp "$V/Cargo.lock.repo" "$R/Cargo.lock"; fi
fi
export CARGO_TARGET_DIR="${VERIF_BUILD:-$V/build}/target"
export VISQOL_VERIF_HARNESS="$OUT/h.rs"
export RUSTFLAGS="--cfg visqol_verif -C no-vectorize-loops -C no-vectorize-slp"
export CARGO_PROFILE_RELEASE_LTO=fat CARGO_PROFILE_RELEASE_OVERFLOW_CHECKS=true CARGO_PROFILE_RELEASE_DEBUG_ASSERTIONS=true
export CARGO_PROFILE_RELEASE_CODEGEN_UNITS=1 CARGO_PROFILE_RELEASE_STRIP=none CARGO_PROFILE_RELEASE_DEBUG=line-tables-only
export CARGO_PROFILE_RELEASE_OPT_LEVEL=2 CARGO_PROFILE_RELEASE_PANIC=abort
cd "$R"
mkdir -p "$CARGO_TARGET_DIR"
exec 9>"$CARGO_TARGET_DIR/.verif-lock"; flock 9
rm -f "$CARGO_TARGET_DIR"/release/deps/visqol_rs*.ll "$CARGO_TARGET_DIR"/release/deps/libvisqol_rs*.so
cargo rustc -p visqol-rs --lib --crate-type cdylib --release --offline -- --emit=llvm-ir,link
cp "$CARGO_TARGET_DIR"/release/deps/visqol_rs*.ll "$OUT/h.ll"
cp "$CARGO_TARGET_DIR"/release/deps/libvisqol_rs*.so "$OUT/h.so" 2>/dev/null || cp "$CARGO_TARGET_DIR"/release/libvisqol_rs.so "$OUT/h.so"
