#!/bin/bash
# usage: check.sh build | check.sh <property> [vmsim options]
# Builds the simulator against /repo's working tree and runs one check.
export HOME="${HOME:-/root}"
[ -d /root/.cargo ] && export HOME=/root
export PATH=/root/.cargo/bin:/usr/local/sbin:/usr/local/bin:/usr/sbin:/usr/bin:/sbin:/bin
export RUSTUP_TOOLCHAIN=1.81.0
export CARGO_NET_OFFLINE=true
export CARGO_TERM_COLOR=never
export RUSTC_WRAPPER=
unset RUSTFLAGS CARGO_TARGET_DIR CARGO_BUILD_TARGET
here="$(cd "$(dirname "$0")" && pwd)"
cd "$here/sim" || exit 2
if ! cargo build --release --locked --offline >"$here/sim/build.log" 2>&1; then
    tail -60 "$here/sim/build.log"
    echo "check.sh: the simulator does not build" >&2
    exit 2
fi
[ "$1" = build ] && exit 0
cd "$here" || exit 2
exec "$here/sim/target/release/vmsim" check "$@"
