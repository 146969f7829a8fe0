#!/bin/bash
# Usage: check.sh <property id> | check.sh replay <file> | check.sh setup
# Builds the harness against /repo's working tree (with the read-only hooks, or without them should
# they not compile any more) and runs one check.
HERE="$(cd "$(dirname "$0")" && pwd)"
cd "$HERE/harness" || exit 2
export CARGO_NET_OFFLINE=true VERIF_DIR="$HERE"
unset RUST_BACKTRACE
export RUST_BACKTRACE=0
LOG="$HERE/harness/target/build.log"
mkdir -p "$HERE/harness/target"
build() { # flags, dir
  RUSTFLAGS="$1" cargo build --release --offline --target-dir "$2" >"$LOG" 2>&1
}
BIN="$HERE/harness/target/hooks/release/bpharness"
if ! build "--cfg verif_hooks -Awarnings" "$HERE/harness/target/hooks"; then
  cp "$LOG" "$LOG.hooks"
  BIN="$HERE/harness/target/plain/release/bpharness"
  if ! build "-Awarnings" "$HERE/harness/target/plain"; then
    echo "ERROR: the harness does not build against /repo"
    tail -n 40 "$LOG.hooks"
    exit 2
  fi
  echo "note: built without the hooks"
fi
case "$1" in
  setup) exit 0 ;;
  replay) exec "$BIN" replay "$2" ;;
  *) exec "$BIN" run "$1" ;;
esac
