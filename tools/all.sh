#!/bin/bash
# Run every check (or those named) at a tier: tools/all.sh [-s SEED] [IDs...]
cd "$(dirname "$0")/.."
[ "$1" = -s ] && { export VERIF_SEED=$2; shift 2; }
ids=${*:-C01 C02 C03 C04 C05 C06 C07 C08 C09 C10 C11 C12 C13 C14 C15 C16 C17 C18 C19 C20}
for p in $ids; do
    python3 run.py --property $p ${CASES:+--cases $CASES} 2>&1 | cut -c1-1500
    s=${PIPESTATUS[0]}; [ $s = 0 ] || echo "== $p exit $s"
done
