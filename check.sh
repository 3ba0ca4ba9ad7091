#!/bin/bash
# Builds the simulator together with /repo's working tree and decides one property.
# usage: ./check.sh <property>     environment: VERIF_SEED, VERIF_TIER (quick or thorough)
cd "$(dirname "$0")/sim" || exit 2
log=$(mktemp)
if ! cargo build --release --offline -q >"$log" 2>&1; then
  # the program's own main() could not be taken in as a module: call the library entry point instead
  if ! cargo build --release --offline -q --features plain_main >"$log" 2>&1; then
    tail -40 "$log" >&2; rm -f "$log"; echo "the simulator does not build against /repo" >&2; exit 2
  fi
fi
./target/release/wbsim check "$1" 2>"$log"
code=$?
if [ $code != 0 ] && [ $code != 1 ]; then tail -c 3000 "$log" >&2; fi
rm -f "$log"
exit $code
