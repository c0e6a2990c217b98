#!/bin/bash
# unk.sh ID [PROP]: applies a seeded bug and prints what its check leaves undecided
cd /verif; id=$1; p=${2:-$(python3 -c "import json;print(json.load(open('/verif/seeded/$id/meta.json'))['property'])")}
W=${W:-/tmp/tc}; export VERIF_REPO=$W; git -C $W checkout -q -- .; git -C $W apply /verif/seeded/$id/patch.diff
python3 analysis/run.py $p | cut -c1-600
python3 -c "
import json;d=json.load(open('evidence/$p.json'))
for u in d['coverage']['undecided_list']: print('UNK', u)"
git -C $W checkout -q -- .
