#!/bin/bash
# check.sh <property-id> [options]: builds the monitor for one property against
# /repo's current tree and runs it. Options go to the monitor (--replay FILE,
# --tier quick|thorough, --seed N, --family NAME, --scale F, --budget S).
here="$(cd "$(dirname "${BASH_SOURCE[0]}")" && pwd)"
id="$1"; shift
source /opt/vp/env.sh >/dev/null 2>&1
cd "$here/harness" || exit 2
bin="$(echo "$id" | tr 'C' 'c')"
if [ -f "$here/tools/pre_$bin.sh" ]; then
  bash "$here/tools/pre_$bin.sh" "$@"
  exit $?
fi
log="$(mktemp)"
# C34 also watches an unoptimised program
if [ "$id" = C34 ] && ! cargo build --offline --quiet --features rug --profile plain --bin deep >"$log" 2>&1; then
  tail -n 60 "$log" >&2; rm -f "$log"
  echo "CHECK-ERROR property=$id: the harness does not build" >&2
  exit 2
fi
if ! cargo build --offline --quiet --features rug --bin "$bin" >"$log" 2>&1; then
  tail -n 60 "$log" >&2; rm -f "$log"
  echo "CHECK-ERROR property=$id: the harness does not build" >&2
  exit 2
fi
rm -f "$log"
export RGMON_VERIF="$here"
exec ./target/debug/"$bin" "$@"
