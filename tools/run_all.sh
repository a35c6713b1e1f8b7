#!/bin/bash
# run_all.sh [tier]: every check, its first line and exit code.
cd "$(dirname "$0")/.." || exit 2
for c in $(seq -f C%02g 1 23); do
    s=$(date +%s); VERIF_TIER=${1:-quick} timeout 900 python run.py $c > /tmp/run_all.$c 2>&1; rc=$?
    echo "$c rc=$rc $(( $(date +%s) - s ))s $(head -1 /tmp/run_all.$c)"
    [ $rc = 0 ] || grep -m3 -A1 VIOLATION /tmp/run_all.$c
    rm -f /tmp/run_all.$c
done
