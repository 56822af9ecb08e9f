#!/bin/bash
# Run from the root of the repository. Exit 0: the property holds in this scenario; otherwise it is broken.
here=$(cd "$(dirname "$0")" && pwd)
repo=$(pwd)
if [ -f /opt/vp/env.sh ]; then . /opt/vp/env.sh; fi
export CARGO_NET_OFFLINE=true CARGO_TERM_COLOR=never
work=$(mktemp -d) || exit 3
trap 'rm -rf "$work"' EXIT
mkdir "$work/src"
sed "s|@REPO@|$repo|" "$here/Cargo.toml.in" > "$work/Cargo.toml"
cp "$here/main.rs" "$here/kit.rs" "$work/src/"
[ -f "$here/Cargo.lock.in" ] && cp "$here/Cargo.lock.in" "$work/Cargo.lock"
cd "$work" || exit 3
CARGO_TARGET_DIR="$work/target" cargo build --offline --quiet || exit 3
timeout 120 "$work/target/debug/demo"
