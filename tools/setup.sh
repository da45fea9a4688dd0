#!/bin/bash
# Nothing to install: warm the dependency-free builds so that the first check does not pay for them.
set -e
cd "$(dirname "$0")/../harness"
export CARGO_NET_OFFLINE=true
cargo +nightly-2025-04-20 build --offline --features c02 --target-dir ../.build/native-C02 >/dev/null 2>&1 || true
exit 0
