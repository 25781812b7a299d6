#!/bin/bash
# run with cwd /repo (after build.sh); exit 0 = behaviour holds
set -e
here=$(cd "$(dirname "$0")" && pwd)
repo=$PWD
w=$(mktemp -d /tmp/demo.XXXXXX)
trap 'rm -rf "$w"' EXIT
mkdir -p "$w/src"
cp "$here/demo.rs" "$w/src/main.rs"
cp "$repo/Cargo.lock" "$w/Cargo.lock"
cat > "$w/Cargo.toml" <<T
[package]
name = "demo"
version = "0.0.0"
edition = "2021"
[workspace]
[dependencies]
hyper = { path = "$repo", features = ["full"] }
tokio = { version = "1", features = ["macros", "net", "io-util", "rt", "rt-multi-thread", "time", "test-util", "sync"] }
http-body-util = "0.1"
futures-util = { version = "0.3", default-features = false, features = ["alloc", "sink"] }
h2 = "0.4"
bytes = "1"
http = "1"
http-body = "1"
T
cd "$w"
cargo build --offline -q --target-dir "$w/target"
timeout 60 "$w/target/debug/demo"
