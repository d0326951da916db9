#!/bin/bash
# Checks one property on /repo's working tree: check.sh <property> <quick|thorough>.
# Exit 0: held on everything explored. Exit 1: a violation was found and its replay
# file is named. Exit 2: the check itself failed.
set -u
cd "$(dirname "${BASH_SOURCE[0]}")" || exit 2
V=$(pwd)
prop=$1 tier=${2:-${VERIF_TIER:-quick}} seed=${VERIF_SEED:-1}
case $tier in
  quick) secs=40 min=60 ;;
  thorough) secs=600 min=180 ;;
  *) echo "unknown tier $tier"; exit 2 ;;
esac
. "$V/sim/env.sh"
mkdir -p "$V/evidence" "$V/replays" || exit 2
log=$(mktemp) || exit 2
if ! flock "$V/sim/.lock" bash -c '. "$0/sim/env.sh"; sim_build' "$V" > "$log" 2>&1; then
  tail -40 "$log"; rm -f "$log"
  echo "the simulator does not build with /repo's working tree"
  exit 2
fi
rm -f "$log"
"$SIM_BIN" check --prop "$prop" --tier "$tier" --seed "$seed" --secs "$secs" --minsecs "$min" --jobs "$(nproc)" \
  --evidence "$V/evidence/$prop.json" --replays "$V/replays" --known "$V/known_findings.txt"
rc=$?
[ $rc -le 1 ] && exit $rc
exit 2
