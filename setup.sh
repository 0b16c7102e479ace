#!/bin/bash
cd "$(dirname "$0")/harness" || exit 2
export CARGO_TARGET_DIR="${MVH_TARGET:-$PWD/target}" CARGO_NET_OFFLINE=true
exec cargo build --offline --locked
