#!/bin/bash
# Builds the framework offline from the committed files. Every check also builds what it needs by itself.
set -eu
cd "$(dirname "$0")"
export RUSTUP_TOOLCHAIN=stable CARGO_NET_OFFLINE=true CARGO_TERM_COLOR=never
unset RUSTFLAGS CARGO_ENCODED_RUSTFLAGS CARGO_BUILD_TARGET CARGO_TARGET_DIR || true
cargo build --manifest-path harness/Cargo.toml --offline --locked --target-dir "$PWD/target"
cargo build --manifest-path harness/Cargo.toml --offline --locked --target-dir "$PWD/target" --release
