#!/bin/bash
# Pre-builds the harness (each check rebuilds it from /repo's current tree anyway).
here="$(cd "$(dirname "$0")" && pwd)"
for c in harness harness-wallet; do
  [ -d "$here/$c" ] && (cd "$here/$c" && cargo build --offline --locked --target-dir "$here/target") >/dev/null 2>&1
done
exit 0
