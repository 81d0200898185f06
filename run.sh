#!/bin/bash
# ./run.sh <property> [quick|thorough|replay <section> <case>]
# Builds the monitors against /repo's working tree and runs one property's monitor.
set -u
cd "$(dirname "$0")" || exit 2
export RUST_BACKTRACE=0 CARGO_NET_OFFLINE=true CARGO_TARGET_DIR="$PWD/target" KMON_VERIF="$PWD" CARGO_TERM_COLOR=never
# what is written must not depend on where the machine is
export TZ="${KMON_TZ:-XXX-05:45}"
export VERIF_SEED="${VERIF_SEED:-1}"
pid="$1"; mode="${2:-${VERIF_TIER:-quick}}"
mkdir -p evidence
log="evidence/.build-$pid.log"
tools/fresh.sh "$PWD/target/debug"
if ! (cd harness && cargo build --offline) >"$log" 2>&1; then
  tail -40 "$log"
  echo "the monitors do not build against /repo"
  exit 2
fi
rm -f "$PWD/$log"
if [ "$pid" = C29 ]; then
  shift
  exec ./sanitize.sh "$mode" "${@:2}"
fi
if [ "$mode" = replay ]; then
  exec ./target/debug/kmon "$pid" replay "$3" "$4"
fi
exec ./target/debug/kmon "$pid" "$mode"
