#!/bin/bash
# check.sh build | check.sh PROPERTY quick|thorough
# Rebuilds the simulator against /repo's working tree and runs one property's simulated runs.
cd "$(dirname "$0")/sim" || exit 2
export HOME="${HOME:-/root}"
export PATH="/root/.cargo/bin:${PATH:-/usr/local/sbin:/usr/local/bin:/usr/sbin:/usr/bin:/sbin:/bin}"
export RUSTUP_TOOLCHAIN=stable CARGO_NET_OFFLINE=true CARGO_TERM_COLOR=never RUSTC_WRAPPER= RUSTFLAGS=
unset CARGO_TARGET_DIR CARGO_BUILD_TARGET
cargo build --release --offline --quiet 2>build.log || { cat build.log >&2; echo "build failed" >&2; exit 3; }
[ "$1" = build ] && exit 0
exec ./target/release/sim check "$1" "${2:-${VERIF_TIER:-quick}}"
