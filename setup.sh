#!/bin/bash
# Builds the simulator from the committed files and /repo's working tree.
set -e
. "$(cd "$(dirname "${BASH_SOURCE[0]}")" && pwd)/sim/env.sh"
sim_build
