#!/bin/bash
# usage: check.sh <property> [quick|thorough]      run a check (seed from VERIF_SEED)
#        check.sh <property> replay <file>         re-run a recorded failing case
# Rebuilds the harness, and with it /repo's current working tree, then runs the check.
set -u
here="$(cd "$(dirname "$0")" && pwd)"
export RUSTUP_TOOLCHAIN=stable-x86_64-unknown-linux-gnu CARGO_NET_OFFLINE=true CARGO_TARGET_DIR="$here/harness/target"
export TZ=UTC
unset RUSTFLAGS
cd "$here/harness" || exit 4
log="$(mktemp)"
if ! cargo build --offline --release --locked >"$log" 2>&1; then
  echo "ERROR: the harness does not build against /repo" >&2
  tail -40 "$log" >&2
  rm -f "$log"
  exit 4
fi
rm -f "$log"
exec "$CARGO_TARGET_DIR/release/vharness" check "$1" "${2:-${VERIF_TIER:-quick}}" "${3:-}"
