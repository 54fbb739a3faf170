#!/bin/bash
# check.sh PROPERTY quick|thorough: rebuilds the simulator against /repo and runs it.
here=$(cd "$(dirname "$0")" && pwd)
log=$(mktemp)
if ! bash "$here/sim/build.sh" >"$log" 2>&1; then
  cat "$log" >&2; rm -f "$log"
  echo "harness error: the simulator does not build against /repo" >&2
  exit 2
fi
rm -f "$log"
SIM_ROOT="$here" exec "$here/sim/target/release/sim" check "$1" "$2"
