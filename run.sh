#!/bin/bash
# run.sh <property id> [quick|thorough|--replay FILE|--family NAME]
# Builds the check of that property against /repo's current working tree and runs it.
# exit 0: the property held on everything explored; exit 1 + VIOLATION line: it is broken.
set -u
here="$(cd "$(dirname "$0")" && pwd)"
export MCHECK_ROOT="$here"
export HOME="${HOME:-/root}"
export PATH="$HOME/.cargo/bin:/usr/local/cargo/bin:$PATH"
export RUSTUP_TOOLCHAIN=stable-x86_64-unknown-linux-gnu
export CARGO_NET_OFFLINE=true CARGO_TERM_COLOR=never RUSTC_WRAPPER= RUST_BACKTRACE=0
export CARGO_TARGET_DIR="$here/target"
unset CARGO_ENCODED_RUSTFLAGS
export RUSTFLAGS=-Awarnings
id="$1"; shift
bin="$(echo "$id" | tr 'A-Z' 'a-z')"
cd "$here/harness" || exit 2
log="$here/target/build-$bin.log"
mkdir -p "$here/target"
if ! cargo build --offline --locked --release --bin "$bin" >"$log" 2>&1; then
    cat "$log" >&2
    echo "build of the check failed" >&2
    exit 2
fi
exec "$here/target/release/$bin" "$@"
