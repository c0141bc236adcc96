#!/bin/bash
# builds what P15 runs: harness, tool and tree programs under AddressSanitizer and ThreadSanitizer, tree programs for Miri
root=${VERIF_SAN_ROOT:-/verif}; harness=${1:-/verif/harness}; mem=${2:-/verif/mem}
. /verif/env.sh
export RUSTUP_TOOLCHAIN=nightly-x86_64-unknown-linux-gnu CARGO_PROFILE_DEV_DEBUG=line-tables-only
T=x86_64-unknown-linux-gnu
log=$(mktemp -d)
run() { # name, command…
  local n=$1; shift
  "$@" > "$log/$n" 2>&1 && return 0
  grep -E '^error' -A8 "$log/$n" | head -60; echo "BUILD FAILED: $n"; return 1
}
san() { # directory, sanitizer, further options
  export CARGO_TARGET_DIR=$1 RUSTFLAGS="-Zsanitizer=$2"
  (cd "$harness" && cargo build --locked --offline --target $T $3) && (cd "$mem" && cargo build --locked --offline --target $T $3)
}
miri() {
  cd "$mem" && CARGO_TARGET_DIR=$root/target-miri MIRIFLAGS="-Zmiri-disable-stacked-borrows -Zmiri-disable-isolation" cargo miri run --locked --offline -q -- tree 1 0 0
}
run asan san "$root/target-asan" address "" & a=$!
run tsan san "$root/target-tsan" thread -Zbuild-std & t=$!
run miri miri & m=$!
rc=0
for p in $a $t $m; do wait $p || rc=2; done
rm -rf "$log"
exit $rc
