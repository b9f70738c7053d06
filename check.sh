#!/bin/bash
# Builds the harness against /repo's current working tree and runs one property's check.
#   ./check.sh C01             quick or thorough by $VERIF_TIER, seeded by $VERIF_SEED
#   ./check.sh --replay FILE   re-runs one recorded case
#   ./check.sh --build         only builds
cd "$(dirname "$0")" || exit 2
export VERIF_DIR="$PWD"
if [ -f /opt/vp/env.sh ]; then . /opt/vp/env.sh; fi
export CARGO_NET_OFFLINE=true CARGO_INCREMENTAL=0 CARGO_TARGET_DIR="$VERIF_DIR/target"
unset RUSTFLAGS
mkdir -p "$CARGO_TARGET_DIR" || exit 2
(
  flock 9
  # do not rely on file times: if the contents of the sources changed, have the crate rebuilt
  now=$( (cd /repo && find src Cargo.toml -type f -print0 | sort -z | xargs -0 sha256sum) | sha256sum)
  if [ "$now" != "$(cat "$CARGO_TARGET_DIR/source.sum" 2>/dev/null)" ]; then
    rm -f "$CARGO_TARGET_DIR/source.sum"
    (cd harness && cargo clean --offline -q -p starry) >/dev/null 2>&1
  fi
  if ! (cd harness && cargo build --offline --locked -q) >"$CARGO_TARGET_DIR/build.log" 2>&1; then
    echo "the harness does not build against /repo:" >&2
    tail -40 "$CARGO_TARGET_DIR/build.log" >&2
    exit 2
  fi
  echo "$now" >"$CARGO_TARGET_DIR/source.sum"
) 9>"$CARGO_TARGET_DIR/build.lock" || exit 2
case "$1" in
  --build) exit 0 ;;
  --replay) exec "$CARGO_TARGET_DIR/debug/vh" replay "$2" ;;
  *) exec "$CARGO_TARGET_DIR/debug/vh" check "$1" ;;
esac
