#!/bin/bash
# ./check.sh <ID> [quick|thorough]   rebuild from /repo's current tree, run the property's checks
# ./check.sh --replay <file>         rebuild, re-run one saved case
# ./check.sh --build                 rebuild only
# exit 0: held; 1: VIOLATION (line on stdout); 3: the check itself could not run
set -u
here=$(cd "$(dirname "$0")" && pwd)
export KCHECK_VERIF=$here CARGO_NET_OFFLINE=true CARGO_TARGET_DIR=$here/harness/target
unset RUSTFLAGS CARGO_ENCODED_RUSTFLAGS RUSTC_WRAPPER CARGO_BUILD_TARGET
bin=$here/harness/target/release/kcheck
log=$(mktemp)
if ! (cd "$here/harness" && cargo build --release --offline --locked) >"$log" 2>&1; then
  cat "$log" >&2
  rm -f "$log"
  echo "the harness does not build against /repo" >&2
  exit 3
fi
if [ "${1:-}" = C26 ] || [ "${1:-}" = --build ] || [[ "${2:-}" == *C26* ]]; then
  if ! (cd "$here/vizharness" && cargo build --release --offline --locked) >"$log" 2>&1; then
    cat "$log" >&2
    rm -f "$log"
    [ "${1:-}" = --build ] && exit 0 # only C26 needs it; its own run reports the failure
    echo "the visualiser does not build" >&2
    exit 3
  fi
fi
rm -f "$log"
case "${1:-}" in
  --build) exit 0 ;;
  --replay) exec "$bin" replay "$2" ;;
  C[0-9][0-9])
    [ -n "${2:-}" ] && export VERIF_TIER=$2
    exec "$bin" run "$1" ;;
  *) echo "usage: check.sh <ID> [quick|thorough] | --replay <file> | --build" >&2; exit 2 ;;
esac
