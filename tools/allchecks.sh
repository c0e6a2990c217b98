#!/bin/bash
# run every claimed check (or the ones named), print exit codes
cd "$(dirname "$0")/.."
ids="$@"; [ -z "$ids" ] && ids=$(python3 -c "import json;print(*[c['property'] for c in json.load(open('MANIFEST.json'))['checks']])")
for i in $ids; do ( s=$(date +%s); python3 analysis/run.py $i > /tmp/chk.$i.log 2>&1; r=$?; echo "$i exit=$r $(( $(date +%s)-s ))s $(grep -c . /tmp/chk.$i.log) lines"; [ $r -ne 0 ] && head -5 /tmp/chk.$i.log ) & while [ $(jobs -r | wc -l) -ge 4 ]; do sleep 0.3; done; done; wait
