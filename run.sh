#!/bin/bash
# run.sh ID: rebuild the harness from /repo's working tree and run the check of property ID.
cd "$(dirname "$0")" || exit 2
export CARGO_TARGET_DIR="$PWD/target" RUSTFLAGS="--cfg verif_hooks" CARGO_NET_OFFLINE=true VH_DIR="$PWD"
log=$(mktemp)
if ! (cd harness && cargo build --release --offline --locked) >"$log" 2>&1; then
  tail -40 "$log"; rm -f "$log"; echo "build failed"; exit 2
fi
rm -f "$log"
[ "$1" = build ] && exit 0
# runaway memory use of the code under test ends that process, with an abort
ulimit -v 16000000
exec target/release/vh check "$1"
