#!/bin/bash
# builds the harness once, so that each check only rebuilds what changed
here="$(cd "$(dirname "$0")" && pwd)"
export RUSTUP_TOOLCHAIN=stable-x86_64-unknown-linux-gnu CARGO_NET_OFFLINE=true CARGO_TARGET_DIR="$here/harness/target"
unset RUSTFLAGS
cd "$here/harness" && cargo build --offline --release --locked
