#!/bin/bash
# Runs main.rs against the crate in the current directory, over real UDP sockets on the loopback.
here="$(dirname "$(readlink -f "$0")")"
repo="$PWD"
export HOME="${HOME:-/root}" PATH="/root/.cargo/bin:$PATH" CARGO_NET_OFFLINE=true RUSTC_WRAPPER= RUST_BACKTRACE=0
unset CARGO_TARGET_DIR
dir="$(mktemp -d)" || exit 2
trap 'rm -rf "$dir"' EXIT
mkdir "$dir/src"
cp "$here"/*.rs "$dir/src/" || exit 2
cp "$repo/Cargo.lock" "$dir/" 2>/dev/null
cat > "$dir/Cargo.toml" <<T
[package]
name = "demo"
version = "0.0.0"
edition = "2021"
[dependencies]
rust-raknet = { path = "$repo" }
tokio = { version = "1", features = ["full"] }
[profile.dev]
debug = false
[workspace]
T
cd "$dir" || exit 2
cargo build -q --offline 2> build.log || { cat build.log; exit 2; }
timeout 200 ./target/debug/demo
