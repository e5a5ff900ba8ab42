#!/bin/bash
# Builds the demonstration against the repository in the current directory and runs it.
# exit 0: the behaviour is right; nonzero: it is broken.
REPO=$(pwd)
HERE=$(cd "$(dirname "$0")" && pwd)
W=$(mktemp -d)
trap 'rm -rf "$W"' EXIT
export PATH=/root/.cargo/bin:/usr/local/sbin:/usr/local/bin:/usr/sbin:/usr/bin:/sbin:/bin
export RUSTUP_TOOLCHAIN=1.70.0
PINNED=/root/.rustup/toolchains/nightly-2023-02-17-x86_64-unknown-linux-gnu/bin
export RUSTC=$PINNED/rustc RUSTDOC=$PINNED/rustdoc RUSTC_WRAPPER= CARGO_NET_OFFLINE=true CARGO_TARGET_DIR=$W/target
unset RUSTFLAGS CARGO_PROFILE_DEV_OPT_LEVEL CARGO_PROFILE_DEV_DEBUG CARGO_INCREMENTAL
sed "s#@REPO@#$REPO#" "$HERE/Cargo.toml.in" >"$W/Cargo.toml"
cp "$HERE/Cargo.lock.in" "$W/Cargo.lock"
cp "$HERE"/*.rs "$W/"
cd "$W" && cargo build --offline --locked >"$W/log" 2>&1 || { tail -n 40 "$W/log"; exit 3; }
timeout 200 "$W/target/debug/demo"
