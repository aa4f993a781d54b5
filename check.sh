#!/bin/bash
# check.sh <property> [quick|thorough]: rebuild the harness against /repo's working tree and run one check.
# exit 0 held, 1 violation (with a VIOLATION line), 2 error of the check.
cd "$(dirname "$0")" || exit 2
export VERIF_ROOT="$PWD"
tier="${2:-${VERIF_TIER:-quick}}"
if ! cargo build --offline --locked --quiet --manifest-path harness/Cargo.toml > harness/build.log 2>&1; then
  tail -40 harness/build.log >&2
  echo "ERROR: the harness does not build" >&2
  exit 2
fi
./harness/target/debug/verif "$1" "$tier"
rc=$?
case $rc in 0|1) exit $rc;; *) echo "ERROR: check ended with $rc" >&2; exit 2;; esac
