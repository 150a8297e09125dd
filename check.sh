#!/bin/bash
# check.sh build | check.sh <property id> | check.sh replay <file> | check.sh one <id> <seed>
# Builds the simulator from /repo's working tree and runs it.
set -u
export HOME=/root PATH="/root/.cargo/bin:$PATH"
export RUSTUP_TOOLCHAIN=stable RUSTC_WRAPPER= CARGO_NET_OFFLINE=true CARGO_TERM_COLOR=never
export CARGO_TARGET_DIR=/verif/target MEERKAT_REPO=/repo MKSIM_ROOT=/verif
unset RUSTC_WORKSPACE_WRAPPER RUSTFLAGS CARGO_ENCODED_RUSTFLAGS CARGO_BUILD_TARGET RUST_BACKTRACE RUST_LIB_BACKTRACE
# what decides whether the store is rebuilt: the contents of its sources, not their times
MEERKAT_SRC_HASH=$(cd /repo && find src/store Cargo.toml -type f -print0 | LC_ALL=C sort -z | xargs -0 sha256sum | sha256sum | cut -c1-16)
export MEERKAT_SRC_HASH
log=/verif/target/build.log
mkdir -p /verif/target
build() { (cd /verif/sim && flock /verif/target/.lock cargo build --offline) >"$log" 2>&1; }
unset MEERKAT_SIM_LOG
if ! build && ! MEERKAT_SIM_LOG=1 build; then
    tail -40 "$log" >&2
    echo "check.sh: the simulator does not build from this tree" >&2
    exit 3
fi
bin=/verif/target/x86_64-unknown-linux-gnu/debug/mksim
case "${1:-build}" in
build) exit 0 ;;
replay) exec "$bin" replay "$2" ;;
one | det) exec "$bin" "$@" ;;
*) exec "$bin" check "$1" ;;
esac
