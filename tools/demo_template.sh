#!/bin/bash
# builds main.rs (beside this file) against /repo and runs it: exit 0 when the behaviour is right
here=$(cd "$(dirname "$0")" && pwd)
. /opt/vp/env.sh
python3 /opt/vp/overlay.py
w=$(mktemp -d)
trap 'rm -rf "$w"' EXIT
mkdir "$w/src"
cp "$here/main.rs" "$w/src/main.rs"
cp /opt/vp/Cargo.lock "$w/Cargo.lock"
cat > "$w/Cargo.toml" <<T
[package]
name = "demo"
version = "0.1.0"
edition = "2021"
[workspace]
[dependencies]
rinex = { path = "/opt/vp/overlay", default-features = false, features = ["antex","clock","doris","flate2","ionex","meteo","nav","obs","serde","rtcm","ut1","log","geo","wkt"] }
T
export CARGO_TARGET_DIR=/repo/target
cd "$w" && cargo build --offline > build.log 2>&1 || { tail -40 build.log; exit 3; }
timeout 120 /repo/target/debug/demo
