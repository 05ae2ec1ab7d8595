#!/bin/bash
# builds demo.rs against the optlib crate of the current directory and runs it
D=$(cd "$(dirname "$0")" && pwd)
R=$(pwd)
export PATH=/root/.cargo/bin:/usr/local/cargo/bin:$PATH CARGO_NET_OFFLINE=true CARGO_INCREMENTAL=0 RUSTC_WRAPPER= RUSTUP_TOOLCHAIN=stable-x86_64-unknown-linux-gnu
T=$(mktemp -d) || exit 2
trap 'rm -rf "$T"' EXIT
mkdir "$T/src"
cp "$D/demo.rs" "$T/src/main.rs"
cp "$D/kit.rs" "$T/src/kit.rs"
cat > "$T/Cargo.toml" <<X
[package]
name = "demo"
version = "0.1.0"
edition = "2021"
[dependencies]
optlib = { path = "$R/optlib" }
optlib-testfunc = { path = "$R/optlib-testfunc" }
num = "0.2.1"
rand = "0.7.3"
[profile.dev]
opt-level = 1
debug = false
[workspace]
X
[ -f "$R/Cargo.lock" ] && cp "$R/Cargo.lock" "$T/Cargo.lock"
cd "$T" && timeout 250 cargo run --offline --quiet 2>&1
exit "${PIPESTATUS[0]}"
