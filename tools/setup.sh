#!/bin/bash
# builds the extractor and the replay harness (each check does so too if they are missing)
set -e
cd "$(dirname "$0")/.."
export PATH=/root/.cargo/bin:/usr/local/cargo/bin:$PATH CARGO_NET_OFFLINE=true CARGO_INCREMENTAL=0 RUSTUP_TOOLCHAIN=stable-x86_64-unknown-linux-gnu
CARGO_TARGET_DIR=$PWD/build/vx cargo build --offline --quiet --manifest-path vx/Cargo.toml
CARGO_TARGET_DIR=$PWD/build/harness cargo build --offline --quiet --manifest-path harness/Cargo.toml
