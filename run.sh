#!/bin/bash
# Usage: run.sh PROPERTY quick|thorough [group:case]
# Builds the monitoring harness against /repo's working tree and runs one property's monitors.
set -u
here="$(cd "$(dirname "$0")" && pwd)"
prop="$1"; tier="${2:-quick}"; shift; shift || true
export CARGO_NET_OFFLINE=true VERIF_DIR="$here"
crate=harness; bin=vh
case "$prop" in W*) crate=harness-wallet; bin=vhw;; esac
mkdir -p "$here/evidence"
log="$here/evidence/build-$crate.log"
if ! (cd "$here/$crate" && cargo build --offline --locked --target-dir "$here/target") >"$log" 2>&1; then
  tail -40 "$log" >&2
  echo "build of $crate against /repo failed (see $log)" >&2
  exit 2
fi
# A crash of the whole process (stack overflow, abort, out of memory) is a violation if it happens again:
# the channels of crossbeam 0.5.6 have a race that crashes once in a blue moon (see DESIGN.md, Limits).
trap 'kill "$pid" 2>/dev/null; exit 143' TERM INT
for try in 1 2; do
  "$here/target/debug/$bin" "$prop" "$tier" "$@" &
  pid=$!
  wait "$pid"; rc=$?
  [ "$rc" -lt 128 ] && exit "$rc"
  echo "$bin $prop ended with status $rc (attempt $try)" >&2
done
replay="$here/evidence/replay/$prop.txt"
mkdir -p "$(dirname "$replay")"
printf 'property %s\nthe process crashed twice, the last time with status %s\nreplay command: bash %s/run.sh %s %s\n' "$prop" "$rc" "$here" "$prop" "$tier" > "$replay"
echo "  the process crashed with status $rc"
echo "VIOLATION property=$prop replay=$replay"
exit 1
