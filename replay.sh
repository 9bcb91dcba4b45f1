#!/bin/bash
# replay.sh FILE - execute a replay file against /repo's working tree (exit 1: it violates the property again).
set -u
here=$(cd "$(dirname "$0")" && pwd)
file=$(realpath "$1")
export CARGO_NET_OFFLINE=true RUSTUP_TOOLCHAIN=stable CARGO_TERM_COLOR=never
cd "$here/sim" || exit 2
if grep -q '^# variant ea_real' "$file"; then f="--features ea_real"; t=target-ea; else f=""; t=target; fi
cargo build --release --locked --quiet $f --target-dir "$here/sim/$t" || exit 2
exec "$here/sim/$t/release/pcisim" replay "$file"
