#!/bin/bash
# check.sh <property id>: build the harness against /repo's working tree and run one check.
cd "$(dirname "$0")/harness" || exit 2
export CARGO_TARGET_DIR="${MVH_TARGET:-$PWD/target}" CARGO_NET_OFFLINE=true
unset RUSTFLAGS CARGO_ENCODED_RUSTFLAGS
if ! out=$(cargo build --offline --locked 2>&1); then
  echo "$out" | tail -40 >&2
  echo "ERROR: the harness does not build against /repo" >&2
  exit 2
fi
export MVH_VERIF="$(cd .. && pwd)"
exec "$CARGO_TARGET_DIR/x86_64-unknown-linux-gnu/debug/mvh" check "$1"
