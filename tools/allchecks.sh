#!/bin/bash
# Runs every check of the manifest with the given seeds; prints what is not quiet.
cd "$(dirname "$0")/.." || exit 1
for s in "${@:-1}"; do
  for c in $(python3 -c "import json;print(*[x['property'] for x in json.load(open('MANIFEST.json'))['checks']])"); do
    out=$(VERIF_SEED=$s python3 lib/run.py "$c" 2>&1); rc=$?
    echo "$s $c rc=$rc $(echo "$out" | tail -1)"
  done
done
