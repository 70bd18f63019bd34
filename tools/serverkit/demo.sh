#!/bin/bash
# Builds a small application and the server of the repository in the current directory, and asks the server for pages.
set -e
D=$(cd "$(dirname "$0")" && pwd); R=$PWD; W=$(mktemp -d); trap 'rm -rf "$W"' EXIT
export RUSTUP_TOOLCHAIN=nightly-2024-07-01 CARGO_NET_OFFLINE=true HOME=/root PATH=/root/.cargo/bin:$PATH CARGO_INCREMENTAL=1 CARGO_PROFILE_DEV_DEBUG=line-tables-only
unset RUSTFLAGS CARGO_TARGET_DIR
cargo build --offline -q -p vertigo-cli >"$W/log" 2>&1 || { cat "$W/log"; exit 3; }
mkdir "$W/src" "$W/dest"; cp "$D/app.rs" "$W/src/lib.rs"; cp "$D/Cargo.lock" "$W/"
cat > "$W/Cargo.toml" <<T
[package]
name = "app"
version = "0.1.0"
edition = "2021"
[lib]
crate-type = ["cdylib"]
[dependencies]
vertigo = { path = "$R/crates/vertigo", features = ["chrono"] }
log = "0.4"
[profile.release]
opt-level = 1
[workspace]
T
(cd "$W"; cargo build --offline --release --target wasm32-unknown-unknown -q >"$W/log" 2>&1 || { cat "$W/log"; exit 3; })
cp "$W/target/wasm32-unknown-unknown/release/app.wasm" "$W/dest/"; echo 'run();' > "$W/dest/run.js"
echo '{"run_js":"/build/run.js","wasm":"/build/app.wasm"}' > "$W/dest/index.json"
node "$D/run.mjs" "$R/target/debug/vertigo" "$W/dest"
