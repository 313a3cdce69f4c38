#!/bin/bash
# runs every claimed check; prints anything that is not a plain proof
cd "$(dirname "$0")/.."
for p in ${@:-C01 C02 C03 C04 C05 C06 C07 C08 C09 C10 C11 C12 C13 C14 C15 C16 C17 C18 C19 C20}; do
  grep -q "\"$p\"" MANIFEST.json || continue
  python3-vt tmv/check.py $p > /tmp/all_$p.log 2>&1; rc=$?
  grep -E "^note|VIOLATION|KNOWN" /tmp/all_$p.log | cut -c1-200; echo "rc=$rc $(tail -1 /tmp/all_$p.log | cut -c1-150)"
done
