#!/bin/bash
# run every registered check, one line each
cd /verif
for p in ${@:-$(python3 -c "
import sys; sys.path.insert(0,'checks'); sys.path.insert(0,'engine')
import table; print(*sorted(table.P))")}; do
  s=$(date +%s); timeout 900 python3 check.py $p > build/run_$p.log 2>&1; r=$?; e=$(( $(date +%s) - s ))
  echo "$p exit=$r ${e}s $(grep -c '^ok' build/run_$p.log) ok $(grep -E '^(FAIL|BROKEN|KNOWN)' build/run_$p.log | cut -c1-150 | tr '\n' ';')"
done
