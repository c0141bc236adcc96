#!/bin/bash
# one check: builds the harness against /repo's working tree, runs the property's workload under its monitor
cd /verif || exit 2
. ./env.sh
mkdir -p evidence
exec 9>/verif/target.lock; flock 9
log=$(mktemp)
if ! (cd harness && cargo build --locked --offline >"$log" 2>&1); then
  grep -E '^error' -A8 "$log" | head -60
  echo "BUILD FAILED: the harness does not build against /repo"
  exit 2
fi
rm -f "$log"
if [ "$1" = P15 ]; then bash sanbuild.sh || exit 2; fi
flock -u 9
exec target/debug/vh check "$1"
