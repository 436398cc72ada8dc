#!/bin/bash
# Builds what every check reuses (dependencies, native replay binaries); each check rebuilds what depends on /repo.
cd "$(dirname "$0")/.." || exit 1
export CARGO_NET_OFFLINE=true RUSTFLAGS="-Awarnings --cfg parcom_verif"
mkdir -p .build
(cd harness && cargo +stable build -q --bin replay --target-dir ../.build/native && cargo +stable build -q --release --bin replay --target-dir ../.build/native) || exit 1
VERIF_TIER=quick bin/check.py C03
