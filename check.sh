#!/bin/bash
# check.sh <property> <quick|thorough>: builds the simulators from /repo's
# working tree and runs one property's check.
export PATH=/root/.cargo/bin:/usr/local/sbin:/usr/local/bin:/usr/sbin:/usr/bin:/sbin:/bin
export HOME=/root RUSTUP_TOOLCHAIN=stable-x86_64-unknown-linux-gnu
export CARGO_NET_OFFLINE=true CARGO_TERM_COLOR=never RUSTC_WRAPPER= RUST_BACKTRACE=0
unset RUSTFLAGS CARGO_TARGET_DIR CARGO_BUILD_TARGET SHUTTLE_SCHEDULER TEST_MAX_THREADS
cd "$(dirname "$0")" || exit 2
export JXLSIM_VERIF="$PWD"
prop=$1 tier=${2:-quick}
build() { # crate
    local out
    out=$(cd "$1" && cargo build --offline --locked 2>&1) && return 0
    echo "$out" | tail -40
    return 1
}
case $prop in
build)
    build sim && build clisim || exit 2
    exit 0
    ;;
P18 | P19)
    build clisim || exit 2
    exec clisim/target/debug/clisim check "$prop" --tier "$tier" --seed "${VERIF_SEED:-1}"
    ;;
esac
build sim || exit 2
exec sim/target/debug/jxlsim check "$prop" --tier "$tier" --seed "${VERIF_SEED:-1}"
