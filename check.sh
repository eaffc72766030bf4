#!/bin/bash
# check.sh PROPERTY [TIER]   builds the harness against /repo's working tree and runs one property
# check.sh build             only builds
# check.sh replay FILE       re-runs a failing case
here="$(cd "$(dirname "$0")" && pwd)"
export VERIF_ROOT="$here" VERIF_REPO="${VERIF_REPO:-/repo}"
export PATH=/root/.cargo/bin:/usr/local/bin:/usr/bin:/bin:$PATH HOME=/root
export RUSTUP_TOOLCHAIN=stable-x86_64-unknown-linux-gnu CARGO_NET_OFFLINE=true CARGO_TERM_COLOR=never
export CARGO_TARGET_DIR="$here/harness/target" CARGO_INCREMENTAL=0 RUSTC_WRAPPER=
unset RUSTFLAGS RUSTDOCFLAGS CARGO_BUILD_TARGET CARGO_ENCODED_RUSTFLAGS
seed="${VERIF_SEED:-1}"
tier="${2:-${VERIF_TIER:-quick}}"
# cargo goes by mtimes, which a restored file can have wrong: always rebuild the crate under test
rm -rf "$CARGO_TARGET_DIR"/release/.fingerprint/skillratings-* "$CARGO_TARGET_DIR"/release/.fingerprint/harness-*
log="$here/harness/target/build.log"
mkdir -p "$CARGO_TARGET_DIR"
if ! (cd "$here/harness" && cargo build --release --offline) >"$log" 2>&1; then
  tail -60 "$log" >&2
  echo "ERROR: the harness does not build against $VERIF_REPO" >&2
  exit 2
fi
bin="$CARGO_TARGET_DIR/release/harness"
case "$1" in
  build) exit 0 ;;
  replay) exec "$bin" replay "$2" ;;
  *) exec "$bin" run "$1" "$tier" "$seed" ;;
esac
