#!/bin/bash
# check.sh ID: builds the explorer against /repo's current working tree and runs the check of one
# property. check.sh build: only builds. VERIF_TIER=quick|thorough.
set -u
here=$(cd "$(dirname "${BASH_SOURCE[0]}")" && pwd)
export MC_VERIF=$here CARGO_NET_OFFLINE=true CARGO_TERM_COLOR=never
export CARGO_TARGET_DIR=$here/mc/target
unset RUSTFLAGS RUSTC_WRAPPER CARGO_BUILD_TARGET CARGO_ENCODED_RUSTFLAGS
cd "$here/mc" || exit 3
# Never trust an earlier build of the crate under test: time stamps of a copied tree may be old.
rm -rf "$here"/mc/target/release/.fingerprint/certified-vars-*
log=$(mktemp)
if ! cargo build --release --offline --locked >"$log" 2>&1; then
  cat "$log" >&2
  rm -f "$log"
  echo "check.sh: the explorer does not build against /repo" >&2
  exit 3
fi
rm -f "$log"
[ "$1" = build ] && exit 0
exec "$here/mc/target/release/mc" check "$1"
