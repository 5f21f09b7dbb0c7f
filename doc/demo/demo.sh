#!/bin/bash
# Run with cwd /repo, after the build: exit 0 if the demonstrated behaviour is right.
here=$(cd "$(dirname "$0")" && pwd)
repo=$PWD
mkdir -p /tmp/adextopa-demo/src
cat "$here/prelude.rs" "$here/main.rs" > /tmp/adextopa-demo/src/main.rs
cp "$repo/Cargo.lock" /tmp/adextopa-demo/Cargo.lock
cat > /tmp/adextopa-demo/Cargo.toml <<TOML
[package]
name = "adextopa-demo"
version = "0.1.0"
edition = "2021"
[workspace]
[dependencies]
adextopa-core = { path = "$repo" }
regex = "1"
[profile.dev]
debug = 0
incremental = false
TOML
cd /tmp/adextopa-demo && CARGO_TARGET_DIR=/tmp/adextopa-demo/target cargo build --offline --quiet 2> build.log || { cat build.log; exit 99; }
(ulimit -v 4000000; cd /tmp/adextopa-demo && timeout 60 ./target/debug/adextopa-demo)
