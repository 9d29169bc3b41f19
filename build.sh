#!/bin/bash
# Build the harness against /repo's current working tree.
set -u
here="$(cd "$(dirname "$0")" && pwd)"
export CARGO_TARGET_DIR="$here/target"
export CARGO_NET_OFFLINE=true
log="$here/target/build.log"
mkdir -p "$here/target"
# never trust timestamps for the code under test
if [ -d "$here/target/release/.fingerprint" ]; then
  find "$here/target/release/.fingerprint" -maxdepth 1 -name 'substrate_parser-*' -exec rm -r {} + 2>/dev/null
fi
build() { cargo build --release --offline --manifest-path "$here/harness/Cargo.toml" "$@" >"$log" 2>&1; }
if ! build && ! { grep -A6 '^error' "$log" | head -60 >&2; echo "trying without C29 and C30" >&2; build --no-default-features; }; then
  tail -60 "$log" >&2
  echo "harness error: build failed" >&2
  exit 2
fi
