#!/bin/bash
# Builds the demonstration beside this script against the crate in the current directory (/repo) and runs it.
here="$(cd "$(dirname "$0")" && pwd)"; repo="$PWD"
export RUSTUP_TOOLCHAIN=stable-x86_64-unknown-linux-gnu CARGO_NET_OFFLINE=true PATH="/usr/local/cargo/bin:/root/.cargo/bin:$PATH"
d="$(mktemp -d)"; trap 'rm -rf "$d"' EXIT
mkdir "$d/src"; cp "$here/demo.rs" "$d/src/main.rs"; cp "$repo/Cargo.lock" "$d/"
cat > "$d/Cargo.toml" <<T
[package]
name = "demo"
version = "0.1.0"
edition = "2021"
[dependencies]
trading-engine = { path = "$repo/trading-engine" }
anyhow = "1.0"
serde_json = "1.0"
[profile.dev]
debug = 0
[workspace]
T
cargo build --offline -q --manifest-path "$d/Cargo.toml" --target-dir "$d/target" >"$d/log" 2>&1 || { cat "$d/log"; exit 3; }
timeout 120 "$d/target/debug/demo"
