#!/bin/bash
# check.sh ID : rebuilds the simulator against /repo's working tree and runs the check of one property.
# VERIF_SEED picks the runs, VERIF_TIER (quick|thorough) how many.
cd "$(dirname "$0")" || exit 2
. ./env.sh
id=$1
case $id in D*) pkg=vsimdf ;; *) pkg=vsim ;; esac
log=$(mktemp)
if ! (cd sim && cargo build --offline -q -p $pkg) >"$log" 2>&1; then
  cat "$log" >&2
  rm -f "$log"
  echo "check $id: the simulator does not build against /repo" >&2
  exit 2
fi
rm -f "$log"
exec "$CARGO_TARGET_DIR/debug/$pkg" check --prop "$id"
