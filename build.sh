#!/bin/bash
# Builds the simulator against the current working tree of /repo (../repo, by sim/Cargo.toml).
# Prints the path of the binary.
here=$(cd "$(dirname "$0")" && pwd)
cd "$here/sim" || exit 2
export HOME=${HOME:-/root} PATH="/root/.cargo/bin:$PATH" RUSTUP_TOOLCHAIN=stable-x86_64-unknown-linux-gnu
export CARGO_TARGET_DIR="$here/sim/target" CARGO_NET_OFFLINE=true
unset RUSTFLAGS CARGO_ENCODED_RUSTFLAGS CARGO_BUILD_RUSTFLAGS RUSTC_WRAPPER CARGO_INCREMENTAL CARGO_PROFILE_DEV_DEBUG
mkdir -p target || exit 2
exec 9>target/.lock
flock 9
# cargo goes by modification times, which a copied or patched tree need not advance
now=$( (cat ../../repo/Cargo.toml build.rs Cargo.toml cli/Cargo.toml cli/build.rs
        find ../../repo/src src cli/src -type f | LC_ALL=C sort | while read -r f; do echo "$f"; cat "$f"; done) | sha256sum)
if [ "$(cat target/.stamp 2>/dev/null)" != "$now" ] || [ ! -x target/debug/snapsim ]; then
    rm -f target/.stamp
    cargo clean --offline -q -p snapcd -p simcli -p snapsim >/dev/null 2>&1
    if ! cargo build --offline --locked -q >target/build.log 2>&1; then
        grep -E -A12 '^error' target/build.log >&2 || tail -30 target/build.log >&2
        exit 2
    fi
    echo "$now" >target/.stamp
fi
echo "$here/sim/target/debug/snapsim"
