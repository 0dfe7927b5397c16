#!/bin/bash
# Builds the indexer program of /repo and runs steps.sh in a scratch directory: 0 when the guarantee held.
here=$(cd "$(dirname "$0")" && pwd)
export HOME=/root PATH="/root/.cargo/bin:/usr/local/sbin:/usr/local/bin:/usr/sbin:/usr/bin:/sbin:/bin"
export RUSTUP_TOOLCHAIN=stable-x86_64-unknown-linux-gnu CARGO_NET_OFFLINE=true CARGO_PROFILE_DEV_DEBUG=0
work=$(mktemp -d /tmp/demo.XXXXXX)
trap 'rm -r "$work"' EXIT
cp /repo/Cargo.lock "$work/Cargo.lock"
export CARGO_RESOLVER_LOCKFILE_PATH="$work/Cargo.lock"
CARGO_TARGET_DIR="$work/target" cargo build --offline -q --bin indexer --features indexing --manifest-path /repo/Cargo.toml || exit 2
indexer="$work/target/debug/indexer"
mkdir "$work/run"
cd "$work/run" || exit 2
catalogue() {
    printf '{"a": {"id": "1", "title": "red hat", "description": "", "vendor": "v", "tags": [], "options": [], "media": [],'
    printf ' "price": {"min": {"amount": "1.0", "currencyCode": "DKK"}, "max": {"amount": "1.0", "currencyCode": "DKK"}}}%s}\n' "$1"
}
. "$here/steps.sh"
