#!/bin/bash
# Builds all checks from the committed files, offline.
set -u
here="$(cd "$(dirname "$0")" && pwd)"
export HOME="${HOME:-/root}"
export PATH="$HOME/.cargo/bin:/usr/local/cargo/bin:$PATH"
export RUSTUP_TOOLCHAIN=stable-x86_64-unknown-linux-gnu
export CARGO_NET_OFFLINE=true CARGO_TERM_COLOR=never RUSTC_WRAPPER=
export CARGO_TARGET_DIR="$here/target"
unset CARGO_ENCODED_RUSTFLAGS
export RUSTFLAGS=-Awarnings
cd "$here/harness" && cargo build --offline --locked --release --bins
[ $? -eq 0 ] || exit 1
# the generated programs of C19 (development profile: debug assertions and overflow checks as in cargo run)
cd "$here/harness/progs" && cargo build --offline --locked
