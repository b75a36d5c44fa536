#!/bin/bash
# Build the simulator against /repo's working tree and run one property's check.
set -u
cd /verif/sim || exit 2
[ -d .butane ] || touch src/main.rs
log=/verif/target/build-$$.log
mkdir -p /verif/target
if ! CARGO_NET_OFFLINE=true cargo build --offline >"$log" 2>&1; then
  tail -60 "$log"; rm -f "$log"
  echo "build failed"; exit 2
fi
rm -f "$log"
[ "${1:-}" = build ] && exit 0
exec /verif/target/debug/dst check "$1"
