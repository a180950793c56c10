#!/bin/bash
# Run with cwd = the repository. Builds demo.rs against it in a scratch directory.
here=$(cd "$(dirname "$0")" && pwd)
repo=$PWD
d=$(mktemp -d) || exit 2
trap 'rm -rf "$d"' EXIT
mkdir "$d/src"
cp "$here/demo.rs" "$d/src/main.rs"
cp "$repo/Cargo.lock" "$d/Cargo.lock"
cat > "$d/Cargo.toml" <<EOF
[package]
name = "demo"
version = "0.0.0"
edition = "2021"
[workspace]
[dependencies]
prost-reflect = { path = "$repo/prost-reflect", features = ["derive", "serde", "text-format", "miette"] }
prost = "0.14"
prost-types = "0.14"
serde_json = "1"
[profile.dev]
debug = false
EOF
cd "$d" || exit 2
export RUSTUP_TOOLCHAIN=1.82.0 CARGO_NET_OFFLINE=true CARGO_TARGET_DIR="$d/target"
cargo build --offline -q 2>build.log || { tail -30 build.log; exit 2; }
timeout 120 ./target/debug/demo
