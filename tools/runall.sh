#!/bin/bash
# Runs the quick check of every claimed property (or of those named) and prints a line each.
cd "$(dirname "$0")/.."
for i in ${@:-$(python3 -c "import json;print(*[c['property'] for c in json.load(open('MANIFEST.json'))['checks']])")}; do
  s=$(date +%s); o=$(python3 check.py $i 2>&1); rc=$?
  echo "$i rc=$rc $(( $(date +%s) - s ))s $(echo "$o" | grep -E 'INCOMPLETE|VIOLATION|ERROR|MISSING' | cut -c1-200)"
done
