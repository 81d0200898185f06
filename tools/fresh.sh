#!/bin/bash
# tools/fresh.sh TARGET_DIR
# Cargo decides by modification times alone whether to rebuild; a changed tree with old times would be
# taken for built. When the contents differ from those of the last build, drop the fingerprints.
t="$1"; mkdir -p "$t" || exit 0
here=$(cd "$(dirname "$0")/.." && pwd)
now=$( { cat /repo/Cargo.toml "$here/harness/Cargo.toml"; find /repo/src "$here/harness/src" -type f -print0 | sort -z | xargs -0 sha256sum; } | sha256sum)
if [ "$now" != "$(cat "$t/source.sha256" 2>/dev/null)" ]; then
  find "$t" -maxdepth 6 -type d -path '*/.fingerprint/*' \( -name 'keride-*' -o -name 'kmon-*' \) -prune -exec rm -rf -- {} +
  echo "$now" > "$t/source.sha256"
fi
