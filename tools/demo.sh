#!/bin/bash
# Builds main.rs (beside this script) against the sval crates in the current directory and runs it.
set -u
here=$(cd "$(dirname "$0")" && pwd)
repo=$PWD
work=$(mktemp -d "${TMPDIR:-/tmp}/demo.XXXXXX") || exit 3
trap 'rm -rf "$work"' EXIT
mkdir -p "$work/src" && cp "$here/main.rs" "$work/src/main.rs" || exit 3
feat='"std"'; [ -f "$here/noalloc" ] && feat=''
cat >"$work/Cargo.toml" <<T
[package]
name = "demo"
version = "0.0.0"
edition = "2021"
[workspace]
[dependencies]
sval = { path = "$repo", default-features = false, features = [${feat:+$feat, }"derive"] }
sval_derive = { path = "$repo/derive", default-features = false, features = [${feat:+$feat, }"flatten"] }
sval_dynamic = { path = "$repo/dynamic", default-features = false }
sval_ref = { path = "$repo/ref", default-features = false, features = [$feat] }
sval_buffer = { path = "$repo/buffer", default-features = false, features = [$feat] }
sval_json = { path = "$repo/json", default-features = false, features = [$feat] }
sval_fmt = { path = "$repo/fmt", default-features = false, features = [$feat] }
sval_nested = { path = "$repo/nested", default-features = false, features = [$feat] }
sval_serde = { path = "$repo/serde", default-features = false, features = [$feat] }
sval_flatten = { path = "$repo/flatten", default-features = false, features = [$feat] }
serde = { version = "1", default-features = false }
T
[ -f "$here/noalloc" ] || echo "sval_test = { path = \"$repo/test\" }
serde_json = \"1\"" >>"$work/Cargo.toml"
cd "$work" || exit 3
export CARGO_NET_OFFLINE=true CARGO_TARGET_DIR="$work/target" RUSTC_WRAPPER= CARGO_TERM_COLOR=never
export RUSTUP_TOOLCHAIN=${RUSTUP_TOOLCHAIN:-nightly-x86_64-unknown-linux-gnu}
prof=; [ -f "$here/noalloc" ] && prof=--release
timeout 280 cargo run -q --offline $prof 2>"$work/err" || { r=$?; tail -5 "$work/err"; exit $r; }
