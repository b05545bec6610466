#!/bin/bash
# Builds the program beside this script against the crates in the current directory and runs it.
set -u
here="$(cd "$(dirname "$0")" && pwd)"
repo="$PWD"
tmp="$(mktemp -d)"
trap 'rm -rf "$tmp"' EXIT
mkdir -p "$tmp/src"
cp "$here"/*.rs "$tmp/src/"
cp "$repo/Cargo.lock" "$tmp/Cargo.lock"
cat > "$tmp/Cargo.toml" <<T
[package]
name = "seed-demo"
version = "0.1.0"
edition = "2021"
[dependencies]
nakamoto-common = { path = "$repo/common" }
nakamoto-chain = { path = "$repo/chain" }
nakamoto-p2p = { path = "$repo/p2p" }
nakamoto-net = { path = "$repo/net" }
nakamoto-net-poll = { path = "$repo/net/poll" }
nakamoto-client = { path = "$repo/client" }
crossbeam-channel = "0.5"
fastrand = "1.3.5"
tempfile = "3"
$([ -f "$here/deps" ] && sed "s#REPO#$repo#" "$here/deps")
[workspace]
T
export RUSTFLAGS="--cfg nakamoto_verif" CARGO_NET_OFFLINE=true CARGO_TARGET_DIR="$repo/target/seed-demo"
cargo build --offline --manifest-path "$tmp/Cargo.toml" >"$tmp/log" 2>&1 || { cat "$tmp/log"; echo "demo does not build"; exit 3; }
timeout 120 "$CARGO_TARGET_DIR/debug/seed-demo"
