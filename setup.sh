#!/bin/bash
# Build the simulator once (checks build it again from /repo's tree when it has changed).
cd "$(dirname "$0")/sim" || exit 1
export CARGO_NET_OFFLINE=true CARGO_TERM_COLOR=never RUSTC_WRAPPER=
export RUSTUP_TOOLCHAIN=${RUSTUP_TOOLCHAIN:-nightly-x86_64-unknown-linux-gnu}
unset RUSTFLAGS CARGO_TARGET_DIR
cargo build --offline --release 2>&1 | tail -3
[ "${PIPESTATUS[0]}" = 0 ] || exit 1
cargo build --offline --profile noalloc --no-default-features --target-dir target/noalloc 2>&1 | tail -3
exit "${PIPESTATUS[0]}"
