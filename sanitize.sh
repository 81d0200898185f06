#!/bin/bash
# C29: the hostile and concurrent workloads under AddressSanitizer, ThreadSanitizer, MemorySanitizer and Miri.
cd "$(dirname "$0")" || exit 2
exec python3 tools/sanitize.py "$@"
