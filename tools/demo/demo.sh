#!/bin/bash
# Builds main.rs against /repo in a scratch directory and runs it: 0 when the guarantee held.
here=$(cd "$(dirname "$0")" && pwd)
export HOME=/root PATH="/root/.cargo/bin:/usr/local/sbin:/usr/local/bin:/usr/sbin:/usr/bin:/sbin:/bin"
export RUSTUP_TOOLCHAIN=stable-x86_64-unknown-linux-gnu CARGO_NET_OFFLINE=true CARGO_PROFILE_DEV_DEBUG=0
work=$(mktemp -d /tmp/demo.XXXXXX)
trap 'rm -r "$work"' EXIT
mkdir "$work/src"
cp "$here/main.rs" "$work/src/main.rs"
cp /repo/Cargo.lock "$work/Cargo.lock"
# the lock file of the repository, extended with what it lacks
CARGO_RESOLVER_LOCKFILE_PATH="$work/Cargo.lock" cargo metadata --offline --format-version 1 --manifest-path /repo/Cargo.toml > /dev/null 2>&1
cat > "$work/Cargo.toml" <<'TOML'
[package]
name = "demo"
version = "0.0.0"
edition = "2021"
[dependencies]
indexer = { path = "/repo" }
colosseum = "0.2.2"
serde_json = "1"
[workspace]
TOML
cd "$work" || exit 2
CARGO_TARGET_DIR="$work/target" cargo build --offline -q || exit 2
timeout 200 "$work/target/debug/demo"
