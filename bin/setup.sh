#!/bin/bash
# Builds the harnesses once, so that the checks only rebuild what changed in /repo.
set -e
cd "$(dirname "$0")/../harness"
export HOME=/root CARGO_HOME=/root/.cargo CARGO_NET_OFFLINE=true RUSTUP_TOOLCHAIN=stable-x86_64-unknown-linux-gnu
export CARGO_TARGET_DIR="$(cd .. && pwd)/target" CARGO_TERM_COLOR=never RUSTC_WRAPPER=
unset RUSTFLAGS
cargo build --offline --locked
mkdir -p ../evidence ../work
