#!/bin/bash
# all checks one after another: run_all.sh [quick|thorough] [check ...]
cd "$(dirname "$0")/.." || exit 2
tier=${1:-quick}; shift
for c in ${@:-$(seq -f 'C%02g' 1 21)}; do
  s=$(date +%s); VERIF_TIER=$tier ./run $c > /tmp/run_all.$c.out 2>&1; rc=$?
  echo "$c rc=$rc $(( $(date +%s) - s ))s $(grep -c ^VIOLATION /tmp/run_all.$c.out) violations"
done
