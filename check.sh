#!/bin/bash
# check.sh <ID> quick|thorough   - build the harness against /repo's working tree and decide <ID>
# check.sh replay <file>         - re-run the recorded case verbosely
# check.sh build                 - only build
set -u
here=$(cd "$(dirname "$0")" && pwd)
export RUSTUP_TOOLCHAIN=${RUSTUP_TOOLCHAIN:-stable-x86_64-unknown-linux-gnu}
export CARGO_NET_OFFLINE=true
export CARGO_TARGET_DIR=${AMQPMON_TARGET:-$here/harness/target}
export PATH="$PATH:$HOME/.cargo/bin"
export CARGO_INCREMENTAL=0
unset RUSTFLAGS RUST_BACKTRACE
mkdir -p "$CARGO_TARGET_DIR"
log=$CARGO_TARGET_DIR/build.log
build() {
  if ! (cd "$here/harness" && cargo build --offline --quiet) >"$log" 2>&1; then
    grep -E '^error|^ +-->' "$log" | head -40 >&2
    echo "BUILD FAILED: the harness does not build against /repo (see $log)" >&2
    exit 2
  fi
}
build
bin=$CARGO_TARGET_DIR/debug/amqpmon
case "${1:-}" in
  build) exit 0 ;;
  replay) exec "$bin" replay "$2" ;;
  *) exec "$bin" check "$1" "${2:-${VERIF_TIER:-quick}}" "$here" ;;
esac
