#!/bin/bash
# builds demo.rs against the oxyroot of the current directory and runs it in a scratch directory
here="$(cd "$(dirname "$0")" && pwd)"
d=$(mktemp -d) || exit 1
trap 'rm -rf "$d"' EXIT
mkdir "$d/src" "$d/scratch" && cp "$here/demo.rs" "$d/src/main.rs" && cp Cargo.lock "$d/" || exit 1
cat > "$d/Cargo.toml" <<T
[package]
name = "demo"
version = "0.0.0"
edition = "2021"
[workspace]
[dependencies]
oxyroot = { path = "$PWD/oxyroot", features = ["derive"] }
[profile.dev]
debug = 0
T
repo="$PWD"
cd "$d" || exit 1
CARGO_TARGET_DIR="$d/target" cargo build --offline -q || exit 1
HERE="$here" REPO="$repo" timeout 200 "$d/target/debug/demo" "$d/scratch"
