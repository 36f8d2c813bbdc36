#!/bin/bash
# Decides one property: bash check.sh ID. Tier and seed come from VERIF_TIER and VERIF_SEED.
cd "$(dirname "$0")" || exit 2
id=$1
tier=${VERIF_TIER:-quick}
seed=${VERIF_SEED:-1}
export VERIF_DIR=$PWD
log=$(mktemp)
if ! (cd harness && cargo build --release --offline) >"$log" 2>&1; then
  grep -A5 "^error" "$log" | head -20
  rm -f "$log"
  echo "INCONCLUSIVE the harness does not build"
  exit 2
fi
rm -f "$log"
# runaway allocation ends in an abort instead of using up the machine
if [ "$id" != C20 ]; then
  ulimit -v 6000000
  exec harness/target/release/verif_harness run "$id" "$tier" "$seed"
fi
(ulimit -v 6000000; harness/target/release/verif_harness run "$id" "$tier" "$seed") || exit $?
exec python3 tools/sanitize.py
