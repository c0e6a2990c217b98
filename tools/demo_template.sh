#!/bin/bash
# Builds main.rs (beside this file) against the crate in the current directory and runs it.
here=$(cd "$(dirname "$0")" && pwd)
repo=$(pwd)
export CARGO_NET_OFFLINE=true CARGO_TERM_COLOR=never RUSTC_WRAPPER= RUSTUP_TOOLCHAIN=stable-x86_64-unknown-linux-gnu
s=$(mktemp -d)
trap 'rm -rf "$s"' EXIT
mkdir "$s/src"
cp "$here/main.rs" "$s/src/main.rs"
[ -f "$repo/Cargo.lock" ] && cp "$repo/Cargo.lock" "$s/Cargo.lock"
deps='serde = { version = "1.0.228", default-features = false }
serde_json = "1.0.150"
rayon = "1.12.0"
archery = "1.2.2"'
[ -f "$here/deps" ] && deps=$(cat "$here/deps")
feat='features = ["serde", "rayon"]'
[ -f "$here/features" ] && feat=$(cat "$here/features")
cat > "$s/Cargo.toml" <<T
[package]
name = "demo"
version = "0.0.0"
edition = "2021"
[workspace]
[dependencies]
rpds = { path = "$repo", $feat }
$deps
[profile.dev]
opt-level = 1
T
cd "$s" && cargo build --offline -q 2>"$s/err" || { tail -30 "$s/err"; exit 3; }
timeout 120 "$s/target/debug/demo"
