#!/bin/bash
# run.sh build | run.sh PROPERTY [quick|thorough]
# Builds the simulator and divans from /repo's working tree, with the hooks on,
# into sim/target, and runs one property's check.
set -u
cd "$(dirname "$0")" || exit 2
home=$PWD
export CARGO_TARGET_DIR=$home/sim/target CARGO_NET_OFFLINE=true DIVSIM_HOME=$home
unset RUSTFLAGS CARGO_ENCODED_RUSTFLAGS CARGO_BUILD_RUSTFLAGS
build() {
    local bin=$CARGO_TARGET_DIR/release/divsim stamp=$CARGO_TARGET_DIR/sources.sha1 now
    # what the sources are counts, not when they were written
    now=$(cd /repo && { find src c/divans -type f; ls Cargo.toml build.rs 2>/dev/null; find "$home/sim/src" "$home/sim/Cargo.toml" "$home/sim/build.rs" "$home/sim/shim.c" "$home/sim/corpus.bin" "$home/sim/large.bin" "$home/sim/.cargo" "$home/sim/cli" "$home/sim/simstd" "$home/sim/table" "$home/sim/plain" "$home/sim/blend" -type f; } | LC_ALL=C sort | xargs -d '\n' sha1sum | sha1sum)
    if [ -x "$bin" ] && [ "$(cat "$stamp" 2>/dev/null)" = "$now" ]; then
        return 0
    fi
    mkdir -p "$CARGO_TARGET_DIR"
    rm -f "$stamp"
    # should the command line tool not build as a part of the simulator, or divans not
    # with other features, the rest still does
    (cd sim && cargo clean --offline --release -p divans -p divsim -p divscli -p simstd -p divans-table -p divans-plain -p divans-blend >/dev/null 2>&1
        for with in cli,builds cli builds ''; do
            cargo build --offline --release --features "$with" && exit 0
        done
        exit 1) >"$CARGO_TARGET_DIR/build.log" 2>&1 || {
        grep -E '^error' -A12 "$CARGO_TARGET_DIR/build.log" | head -60
        echo "error: the build failed"
        return 2
    }
    printf '%s' "$now" >"$stamp"
}
mkdir -p "$home/sim/target"
exec 9>"$home/sim/target/run.lock"
flock 9
build || exit 2
flock -u 9
[ "${1:-}" = build ] && exit 0
exec "$CARGO_TARGET_DIR/release/divsim" check --prop "$1" --tier "${2:-${VERIF_TIER:-quick}}"
