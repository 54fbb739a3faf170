#!/bin/bash
# Builds the simulator against /repo's current tree.
here=$(cd "$(dirname "$0")" && pwd)
export HOME=${HOME:-/root} PATH=/root/.cargo/bin:/usr/local/sbin:/usr/local/bin:/usr/sbin:/usr/bin:/sbin:/bin
export RUSTUP_TOOLCHAIN=1.88.0 CARGO_NET_OFFLINE=true CARGO_TERM_COLOR=never
export RUSTC_WRAPPER="$here/rustc-wrap.sh" CARGO_TARGET_DIR=${SIM_TARGET:-$here/target}
unset RUSTFLAGS CARGO_INCREMENTAL
cd "$here" || exit 2
# the tables' inner types are no interface: without them most of S13 still works
cargo build --release --offline "$@" || exec cargo build --release --offline --no-default-features "$@"
