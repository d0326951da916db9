#!/bin/bash
# Reproduces a reported violation: replay.sh <replay file> [--log 1]
set -u
V=$(cd "$(dirname "${BASH_SOURCE[0]}")" && pwd)
. "$V/sim/env.sh"
sim_build > /dev/null 2>&1 || { echo "the simulator does not build with /repo's working tree"; exit 2; }
f=$1; shift
"$SIM_BIN" replay --file "$f" "$@"
