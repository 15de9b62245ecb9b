#!/bin/bash
# check.sh <property> [quick|thorough] [--only CASE]
# Builds the harness against /repo's current working tree and decides one property. Exit 0: held on everything
# explored; 1: VIOLATION line; 2: no answer (build or set-up failure).
set -u
HERE="$(cd "$(dirname "$0")" && pwd)"
export PCHECK_VERIF="$HERE"
ID="${1:?property}"
TIER="${2:-quick}"
[ -f /opt/vp/env.sh ] && . /opt/vp/env.sh
export CARGO_NET_OFFLINE=true
mkdir -p "$HERE/target" "$HERE/evidence"
LOG="$HERE/target/build.$ID.log"
if ! cargo build --release --offline --manifest-path "$HERE/harness/Cargo.toml" --target-dir "$HERE/target" >"$LOG" 2>&1; then
  tail -40 "$LOG"
  echo "error: the harness does not build against /repo"
  exit 2
fi
case "$ID" in
  P02|P04|P05|P24|P29)
    if ! cargo build --release --offline --manifest-path /repo/Cargo.toml --bin posidonius --target-dir "$HERE/target/repo" >"$LOG" 2>&1; then
      tail -40 "$LOG"
      echo "error: /repo does not build"
      exit 2
    fi
    export PCHECK_BIN="$HERE/target/repo/release/posidonius"
    ;;
esac
if [ "$ID" = P02 ]; then
  gcc -O1 -fPIC -shared -o "$HERE/target/crash.so" "$HERE/tools/crash.c" -ldl || exit 2
  export PCHECK_SHIM="$HERE/target/crash.so"
fi
shift; [ $# -gt 0 ] && shift
exec "$HERE/target/release/pcheck" "$ID" "$TIER" "$@" 2>/dev/null
