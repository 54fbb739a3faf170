#!/bin/bash
# replay.sh FILE: rebuilds the simulator against /repo and runs a replay file again.
here=$(cd "$(dirname "$0")" && pwd)
bash "$here/sim/build.sh" >/dev/null 2>&1 || exit 2
SIM_ROOT="$here" exec "$here/sim/target/release/sim" replay "$1"
