#!/bin/bash
# builds the engine and warms the harness builds (both are rebuilt by every check if needed)
cd "$(dirname "$0")/.." || exit 1
export RUSTUP_TOOLCHAIN=stable-x86_64-unknown-linux-gnu CARGO_NET_OFFLINE=true
cargo build --offline --release --manifest-path symx/Cargo.toml || exit 1
mkdir -p build evidence
exit 0
