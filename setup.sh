#!/bin/bash
# Builds the monitors once (every check rebuilds what changed).
cd "$(dirname "$0")/harness" || exit 1
export PATH="/root/.cargo/bin:/usr/local/bin:$PATH" RUSTUP_TOOLCHAIN=stable CARGO_NET_OFFLINE=true RUSTFLAGS="--cap-lints warn"
export CARGO_TARGET_DIR="$PWD/target"
exec cargo build --release --offline
