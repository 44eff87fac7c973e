#!/bin/bash
# Builds the demonstration against the tree in the current directory and runs it.
# Everything it writes stays in a scratch directory, which it removes.
here="$(cd "$(dirname "$0")" && pwd)"
repo="$PWD"
. /opt/vp/env.sh
tmp="$(mktemp -d)"
trap 'rm -rf "$tmp"' EXIT
cp -r "$here/kit/." "$tmp/"
cp "$here/demo.rs" "$here/demo.py" "$tmp/src/"
sed -i "s#@REPO@#$repo#" "$tmp/Cargo.toml" "$tmp/src/python.rs"
export CARGO_TARGET_DIR="$tmp/target" CARGO_INCREMENTAL=0 CARGO_NET_OFFLINE=true
export RUSTFLAGS="--cfg up4_sim --cfg up4_sim_python -A warnings"
unset CARGO_ENCODED_RUSTFLAGS
if ! (cd "$tmp" && cargo build --offline) >"$tmp/log" 2>&1; then
    tail -20 "$tmp/log"
    echo "the demonstration does not build"
    exit 3
fi
mkdir "$tmp/scratch"
cd "$tmp/scratch" && timeout 60 "$tmp/target/debug/demo" >"$tmp/out" 2>&1
code=$?
grep -a "^DEMO" "$tmp/out" || tail -5 "$tmp/out"
exit $code
