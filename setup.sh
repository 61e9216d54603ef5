#!/bin/bash
# builds the framework once (checks rebuild what they need themselves)
cd "$(dirname "$0")" || exit 1
export RUSTUP_TOOLCHAIN=stable-x86_64-unknown-linux-gnu CARGO_NET_OFFLINE=true
(cd extract && cargo build --release --offline --locked) || exit 1
(cd driver && cargo build --release --offline --locked && cargo build --profile checked --offline --locked) || exit 1
verus --version >/dev/null || exit 1
mkdir -p evidence work
