#!/bin/bash
# One seed is one exactly repeatable execution:
#  1. the same seeds give the same event hashes with 1, 3 and 8 worker processes;
#  2. re-executing the recorded actions (no generator, no randomness) gives the generator run's hash.
cd "$(dirname "$0")/.." || exit 2
runs=${RUNS:-24}; bad=0
export SIM_MODS=${SIM_MODS:-$(python3 sim/build.py | tail -1)}
for p in ${*:-C05 C12 C20 C27 C28 C33 C34}; do
  hs=""
  for w in 1 3 8; do
    SIM_RUNS=$runs SIM_WORKERS=$w node sim/run.mjs check "$p" > /dev/null 2>&1 || bad=1
    hs="$hs $(python3 -c "import json;print(json.load(open('evidence/$p.json'))['coverage']['event_hash'])")"
  done
  n=$(printf '%s\n' $hs | sort -u | wc -l)
  echo "$p event hashes:$hs"; [ "$n" = 1 ] || { echo "NOT DETERMINISTIC"; bad=1; }
  node sim/run.mjs rerun "$p" 4 || bad=1
done
exit $bad
