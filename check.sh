#!/bin/bash
# check.sh ID [quick|thorough]: build the simulator against /repo's working tree and decide one property.
set -u
id=$1
tier=${2:-${VERIF_TIER:-quick}}
here=$(cd "$(dirname "$0")" && pwd)
export CARGO_NET_OFFLINE=true CARGO_TERM_COLOR=never RUSTC_WRAPPER=
export RUSTUP_TOOLCHAIN=${RUSTUP_TOOLCHAIN:-nightly-x86_64-unknown-linux-gnu}
unset RUSTFLAGS CARGO_TARGET_DIR
export VERIF_DIR=$here
cd "$here/sim" || exit 2
build() { # build PROFILE-ARGS...: one retry in case the build was cut short
  cargo build --offline "$@" >"$here/sim/target.log" 2>&1 || cargo build --offline --locked "$@" >"$here/sim/target.log" 2>&1 || {
    tail -40 "$here/sim/target.log"
    echo "check: the simulator does not build" >&2
    exit 2
  }
}
if [ "$id" = C17 ]; then
  build --profile noalloc --no-default-features --target-dir "$here/sim/target/noalloc"
  exec "$here/sim/target/noalloc/noalloc/sim" check "$id" "$tier"
else
  build --release
  exec "$here/sim/target/release/sim" check "$id" "$tier"
fi
