#!/bin/bash
# Builds demo.rs against /repo's working tree in a scratch directory and runs it: exit 0 iff the property held.
set -u
here=$(cd "$(dirname "$0")" && pwd)
repo=$(pwd)
export HOME=${HOME:-/root} PATH=/root/.cargo/bin:/usr/local/sbin:/usr/local/bin:/usr/sbin:/usr/bin:/sbin:/bin
export RUSTUP_TOOLCHAIN=stable RUSTC_WRAPPER= CARGO_NET_OFFLINE=true CARGO_TERM_COLOR=never
export CARGO_PROFILE_DEV_OPT_LEVEL=1 CARGO_PROFILE_DEV_DEBUG=0 CARGO_INCREMENTAL=0
[ -f "$here/release" ] && export CARGO_PROFILE_DEV_DEBUG_ASSERTIONS=false CARGO_PROFILE_DEV_OVERFLOW_CHECKS=false
tmp=$(mktemp -d) || exit 99
trap 'rm -rf "$tmp"' EXIT
mkdir "$tmp/src"
cp "$here/demo.rs" "$tmp/src/main.rs"
[ -f "$here/common.rs" ] && cp "$here/common.rs" "$tmp/src/common.rs"
cat > "$tmp/Cargo.toml" <<T
[package]
name = "demo"
version = "0.0.0"
edition = "2021"
[dependencies]
bulletproofs = { path = "$repo/bulletproofs" }
relations = { path = "$repo/relations" }
ark-ff = "0.4"
ark-ec = "0.4"
ark-serialize = "0.4"
ark-std = "0.4"
ark-crypto-primitives = { version = "0.4", features = ["signature"] }
ark-pallas = "0.4"
ark-vesta = "0.4"
merlin = { version = "2", default-features = false }
rand = "0.8"
blake2 = "0.10"
[workspace]
T
[ -f "$here/nodefault" ] && sed -i 's#\(path = "[^"]*"\)#\1, default-features = false#' "$tmp/Cargo.toml"
cp "$repo/Cargo.lock" "$tmp/Cargo.lock"
cd "$tmp" && CARGO_TARGET_DIR="$tmp/target" cargo build --offline -q 2> "$tmp/log" || { if [ -f "$here/mustfail" ]; then exit 0; fi; cat "$tmp/log"; exit 98; }
if [ -f "$here/mustfail" ]; then echo "compiles, but must not"; exit 1; fi
timeout 120 "$tmp/target/debug/demo"
