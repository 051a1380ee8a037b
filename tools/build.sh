#!/bin/sh
# Builds the simulator (and the instrumented library) from /repo's current tree into /verif/target.
root="$(cd "$(dirname "$0")/.." && pwd)"
export CARGO_NET_OFFLINE=true CARGO_TARGET_DIR="${KSIM_TARGET:-$root/target}" RUSTC_WRAPPER="$root/tools/rustc-wrap.sh" RUSTUP_TOOLCHAIN=stable CARGO_INCREMENTAL=0
unset RUSTFLAGS CARGO_ENCODED_RUSTFLAGS CARGO_BUILD_TARGET
cd "$root/sim" && cargo build --offline --quiet 2>&1
