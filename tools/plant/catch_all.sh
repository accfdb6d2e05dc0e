#!/bin/bash
# catch_all.sh OUT [SEED...]: every planted bug against its own check, in scratch copies
out=$1; shift
here=$(cd "$(dirname "$0")/../.." && pwd)
for seed in ${*:-1}; do
 for id in $(ls ${SEED_DIR:-/verif/seeded}); do
  grep -q "^$seed $id " "$out" 2>/dev/null && continue
  r=$(VERIF_SEED=$seed VCOPY=${VCOPY:-$here} bash "$(dirname "$0")/try.sh" "$id")
  echo "$seed $r" >> "$out"
 done
done
