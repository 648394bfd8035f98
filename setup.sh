#!/bin/bash
# Builds the harness in both profiles, offline.
set -eu
cd "$(dirname "$0")/mc"
export RUSTFLAGS="-Awarnings" CARGO_NET_OFFLINE=true
cargo build --offline --profile dev --bin streams --bin types
cargo build --offline --profile ship --bin streams --bin types
cargo build --offline --profile plain --bin evo --bin wide
