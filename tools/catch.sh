#!/bin/bash
# catch.sh [-a] ID...: applies each seeded bug to a scratch worktree, runs its property's check (-a: all claimed checks), undoes it.
all=; [ "$1" = -a ] && { all=1; shift; }
cd /verif
W=${W:-/tmp/tc}; export VERIF_REPO=$W
[ -d $W ] || git -C /repo worktree add --detach -f $W HEAD >/dev/null 2>&1
git -C $W checkout -q --detach $(git -C /repo rev-parse HEAD); git -C $W checkout -q -- .; [ -f $W/Cargo.lock ] || cp /repo/Cargo.lock $W/ 2>/dev/null
for id in "$@"; do
  p=$(python3 -c "import json;print(json.load(open('/verif/seeded/$id/meta.json'))['property'])")
  git -C $W apply /verif/seeded/$id/patch.diff || { echo "$id no apply"; continue; }
  ids=$p; [ -n "$all" ] && ids=$(python3 -c "import json;print(*[c['property'] for c in json.load(open('MANIFEST.json'))['checks']])")
  for q in $ids; do
    out=$(python3 analysis/run.py $q 2>&1); rc=$?
    if [ $rc = 1 ]; then echo "$id: $q CAUGHT: $(echo "$out" | grep -- '^---' | head -2 | tr '\n' ' ')"; elif [ $rc != 0 ]; then echo "$id: $q ERROR $(echo "$out"|tail -3)"; elif [ -z "$all" ]; then echo "$id: $q missed"; fi
  done
  git -C $W checkout -q -- .
done
