#!/bin/bash
# builds the bounded harness against /repo's current tree
cd "$(dirname "$0")"
source /opt/vp/env.sh >/dev/null 2>&1
V=$(pwd); REPO=${REPO:-/repo}
export RUSTFLAGS="--cfg ref_verif" REF_VERIF_EXCHANGE=$V/harness/ex.rs REF_VERIF_FARMING=$V/harness/fa.rs CARGO_TARGET_DIR=${HTARGET:-$V/.build/htarget}
mkdir -p .build
cp $REPO/Cargo.lock harness/Cargo.lock
cd harness && cargo build --offline 2>&1
