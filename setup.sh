#!/bin/bash
# Builds the monitors once, offline, from the committed files and /repo's tree (the sanitizer builds as far as they go).
cd "$(dirname "$0")" || exit 2
export CARGO_NET_OFFLINE=true CARGO_TARGET_DIR="$PWD/target" CARGO_TERM_COLOR=never
mkdir -p evidence
tools/fresh.sh "$PWD/target/debug"
(cd harness && cargo build --offline) || exit 2
python3 tools/sanitize.py build || true
exit 0
