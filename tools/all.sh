#!/bin/bash
# every claimed check, one after another
cd "$(dirname "$0")/.."
for i in $(python3 -c "import json;print(*sorted(json.load(open('tools/claimed.json'))))"); do
  s=$(date +%s); ./check $i quick > /tmp/all.$i 2>&1; r=$?
  echo "$i rc=$r $(( $(date +%s)-s ))s $(grep -c ^VIOLATION /tmp/all.$i) $(tail -1 /tmp/all.$i | cut -c1-150)"
done
