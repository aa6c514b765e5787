#!/bin/bash
# builds the crate in /repo with the demonstration included and runs it; everything is built in a scratch directory
D=$(cd "$(dirname "$0")" && pwd)
. /opt/vp/env.sh
S=$(mktemp -d)
trap 'rm -rf -- "$S"' EXIT
cp "$D"/*.rs "$S"/
cat > "$S/Cargo.toml" <<T
[package]
name = "demo"
version = "0.1.0"
edition = "2018"
[dependencies]
krate = { package = "@PKG@", path = "/repo/@DIR@" }
[[bin]]
name = "demo"
path = "main.rs"
[profile.dev]
opt-level = 1
debug = false
overflow-checks = true
[workspace]
T
cp /repo/Cargo.lock "$S/Cargo.lock"
cat > "$S/main.rs" <<T
fn main() { if !krate::ref_verif::run() { std::process::exit(1) } }
T
export RUSTFLAGS="--cfg ref_verif" REF_VERIF_EXCHANGE="$S/top.rs" REF_VERIF_FARMING="$S/top.rs" CARGO_TARGET_DIR="$S/target"
cd "$S" && cargo build --offline -q 2> "$S/err" || { tail -30 "$S/err"; exit 2; }
"$S/target/debug/demo"
