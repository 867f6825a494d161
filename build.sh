#!/bin/bash
# Builds the harness against /repo's working tree (offline).
set -u
here="$(cd "$(dirname "$0")" && pwd)"
export CARGO_NET_OFFLINE=true CARGO_TERM_COLOR=never
export RUSTFLAGS="-A mismatched_lifetime_syntaxes"
cd "$here/harness" || exit 2
mkdir -p target
# cargo decides by modification times; decide by content as well, so that a tree whose files are
# older than the last build is never mistaken for the tree that was built
now="$(find /repo/src /repo/Cargo.toml -type f -print0 | LC_ALL=C sort -z | xargs -0 sha256sum | sha256sum)"
if [ "$now" != "$(cat target/repo.sha256 2>/dev/null)" ]; then
    rm -f "$here/harness/target/repo.sha256"
    cargo clean --offline --release -p kserd >/dev/null 2>&1
fi
out="$(cargo build --release --offline --locked 2>&1)" || { echo "$out" | tail -40 >&2; exit 2; }
echo "$now" > target/repo.sha256
