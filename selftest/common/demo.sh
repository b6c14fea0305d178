#!/bin/bash
# Builds the program beside this script against the controller in the current directory and runs it.
export HOME=/root PATH=/usr/local/bin:/usr/local/sbin:/usr/sbin:/usr/bin:/sbin:/bin
export RUSTUP_TOOLCHAIN=1.99.1 CARGO_NET_OFFLINE=true CARGO_INCREMENTAL=0 RUSTC_WRAPPER=
unset RUSTFLAGS CARGO_TARGET_DIR CARGO_ENCODED_RUSTFLAGS CARGO_BUILD_TARGET
here=$(cd "$(dirname "$0")" && pwd)
repo=$PWD
dir=$(mktemp -d)
trap 'rm -rf "$dir"' EXIT
mkdir "$dir/src"
cp "$here"/*.rs "$dir/src/"
cp "$repo/Cargo.lock" "$dir/Cargo.lock"
cat >"$dir/Cargo.toml" <<T
[package]
name = "demo"
version = "0.1.0"
edition = "2021"
[workspace]
[dependencies]
cw-ica-controller = { path = "$repo" }
cosmwasm-std = { version = "2.1", features = ["cosmwasm_1_4", "stargate", "staking"] }
cw-storage-plus = "2.0"
cw2 = "2.0"
serde_json = "1.0"
[profile.dev]
debug = false
T
cargo build --offline --manifest-path "$dir/Cargo.toml" >"$dir/log" 2>&1 || { cat "$dir/log"; exit 3; }
"$dir/target/debug/demo"
