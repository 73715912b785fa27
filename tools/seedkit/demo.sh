#!/bin/bash
# run with cwd = the repository: fails when the change breaks the property
set -eu
here=$(cd "$(dirname "$0")" && pwd)
repo=$PWD
tmp=$(mktemp -d)
trap 'rm -rf "$tmp"' EXIT
mkdir -p "$tmp/src" "$tmp/tmp"
cp "$here"/*.rs "$tmp/src/"
sed "s|@REPO@|$repo|" "$here/Cargo.toml.in" > "$tmp/Cargo.toml"
cp "$repo/Cargo.lock" "$tmp/"
cd "$tmp"
export TMPDIR="$tmp/tmp" CARGO_NET_OFFLINE=true CARGO_TARGET_DIR="$tmp/target"
cargo build --offline --quiet
timeout 100 "$tmp/target/debug/demo"
