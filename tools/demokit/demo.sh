#!/bin/bash
# Builds a small wasm application against the repository in the current directory and drives it from node.
set -e
D=$(cd "$(dirname "$0")" && pwd); R=$PWD; W=$(mktemp -d); trap 'rm -rf "$W"' EXIT
export RUSTUP_TOOLCHAIN=nightly-2024-07-01 CARGO_NET_OFFLINE=true HOME=/root PATH=/root/.cargo/bin:$PATH
unset RUSTFLAGS CARGO_TARGET_DIR
mkdir "$W/src"; cp "$D"/*.rs "$W/src/"; mv "$W/src/demo.rs" "$W/src/lib.rs"; cp "$D/Cargo.lock" "$W/"
cat > "$W/Cargo.toml" <<T
[package]
name = "demo"
version = "0.1.0"
edition = "2021"
[lib]
crate-type = ["cdylib"]
[dependencies]
vertigo = { path = "$R/crates/vertigo", features = ["chrono"] }
log = "0.4"
[profile.release]
opt-level = 1
[workspace]
T
cd "$W"; cargo build --offline --release --target wasm32-unknown-unknown -q >"$W/log" 2>&1 || { cat "$W/log"; exit 3; }
node --stack-size=20000 "$D/run.mjs" "$W/target/wasm32-unknown-unknown/release/demo.wasm"
