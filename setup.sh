#!/bin/bash
# Builds everything once (idempotent; checks rebuild what changed).
set -u
HERE="$(cd "$(dirname "$0")" && pwd)"
[ -f /opt/vp/env.sh ] && . /opt/vp/env.sh
export CARGO_NET_OFFLINE=true
mkdir -p "$HERE/target" "$HERE/evidence"
cargo build --release --offline --manifest-path "$HERE/harness/Cargo.toml" --target-dir "$HERE/target" || exit 1
cargo build --release --offline --manifest-path /repo/Cargo.toml --bin posidonius --target-dir "$HERE/target/repo" || exit 1
