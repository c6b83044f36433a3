#!/bin/bash
# Builds the library from the working tree over the stand-in libraries beside this file, in a
# scratch directory, and runs the demonstration against it.
here=$(cd "$(dirname "$0")" && pwd)
repo=$PWD
d=$(mktemp -d) || exit 3
trap 'rm -rf "$d"' EXIT
mkdir -p "$d/w/src" "$d/w/.cargo"
cp -a "$here/lib/standins" "$here/lib/vendor" "$d/"
cp "$here/demo.rs" "$d/w/src/main.rs"
cp "$here/lib/support.rs" "$d/w/src/"
cp "$here/lib/Cargo.lock" "$d/w/" 2>/dev/null
cp "$here/lib/config.toml" "$d/w/.cargo/"
sed "s#@REPO@#$repo#g" "$here/lib/manifest" >"$d/w/Cargo.toml"
cd "$d/w" || exit 3
export CARGO_NET_OFFLINE=true
timeout 280 cargo build --offline --target-dir "$d/target" >"$d/log" 2>&1 || { tail -30 "$d/log"; exit 4; }
PROGRAM=$d/target/debug/Reveaal timeout 60 "$d/target/debug/demo"
