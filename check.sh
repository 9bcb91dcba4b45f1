#!/bin/bash
# check.sh Pnn quick|thorough - build the simulator against /repo's working tree and decide one property.
set -u
here=$(cd "$(dirname "$0")" && pwd)
prop=$1
tier=${2:-${VERIF_TIER:-quick}}
seed=${VERIF_SEED:-1}
ev=$here/evidence
mkdir -p "$ev/replay"
export CARGO_NET_OFFLINE=true RUSTUP_TOOLCHAIN=stable CARGO_TERM_COLOR=never
cd "$here/sim" || exit 2
# what is built is decided by content, not by file times
sum=$(cd /repo && find src Cargo.toml README.md -type f -print0 | LC_ALL=C sort -z | xargs -0 sha256sum | sha256sum | cut -d' ' -f1)
build() { # features, target dir
    if [ "$(cat "$2/repo.sum" 2>/dev/null)" != "$sum" ]; then
        [ -d "$2" ] && cargo clean --release --quiet --locked -p pcics --target-dir "$2" >/dev/null 2>&1
        mkdir -p "$2"
    fi
    if ! cargo build --release --locked --quiet $1 --target-dir "$2" >"$ev/$prop.build.log" 2>&1; then
        cat "$ev/$prop.build.log" >&2
        echo "cannot build the simulator against /repo" >&2
        exit 2
    fi
    echo "$sum" >"$2/repo.sum"
}
limit=330
[ "$tier" = thorough ] && limit=600
build "" "$here/sim/target"
also=()
case $prop in
    # properties whose meaning depends on the library's own cargo feature: both configurations
    P01|P02|P05|P07|P10|P12|P15)
        build "--features ea_real" "$here/sim/target-ea"
        # other seeds than those of the main search, and about a quarter of the runs
        "$here/sim/target-ea/release/pcisim" check --prop "$prop" --tier "$tier" --share 4 --seed "$((seed + 1000000007))" \
            --max-seconds $((limit / 4)) --out "$ev/replay" --evidence "$ev/$prop.ea_real.json.part"
        rc=$?
        [ $rc -ge 2 ] && exit $rc
        also=(--also "$ev/$prop.ea_real.json.part")
        if [ $rc -eq 1 ]; then
            mv "$ev/$prop.ea_real.json.part" "$ev/$prop.json"
            exit 1
        fi
        ;;
esac
"$here/sim/target/release/pcisim" check --prop "$prop" --tier "$tier" --seed "$seed" --max-seconds $limit \
    --out "$ev/replay" --evidence "$ev/$prop.json" "${also[@]}"
rc=$?
rm -f "$ev/$prop.ea_real.json.part" "$ev/$prop.build.log"
exit $rc
