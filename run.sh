#!/bin/bash
# Builds the harness against /repo's working tree and runs one check:
#   run.sh <property id> [facet] | run.sh replay <file> | run.sh build
set -u
root="$(cd "$(dirname "$0")" && pwd)"
export PATH="/root/.cargo/bin:/usr/local/cargo/bin:/usr/local/sbin:/usr/local/bin:/usr/sbin:/usr/bin:/sbin:/bin:$PATH"
export RUSTUP_TOOLCHAIN="${RUSTUP_TOOLCHAIN:-stable}" CARGO_NET_OFFLINE=true CARGO_TERM_COLOR=never
unset RUSTFLAGS RUSTC_WRAPPER RUST_LOG
export CARGO_TARGET_DIR="$root/target" VERIF_ROOT="${VERIF_ROOT:-$root}"
mkdir -p "$root/target"
if ! cargo build --offline --quiet --manifest-path "$root/harness/Cargo.toml" > "$root/target/build.log" 2>&1; then
    tail -80 "$root/target/build.log" >&2
    echo "the harness does not build" >&2
    exit 3
fi
[ "${1:-}" = build ] && exit 0
exec "$root/target/debug/mcheck" "$@"
