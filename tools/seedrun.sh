#!/bin/bash
# tools/seedrun.sh ID...   runs the quick check of each planted bug's own property (and any extra ids in EXTRA) against it.
for id in "$@"; do
  p=$(python3 -c "import json;print(json.load(open('/verif/seeded/$id/meta.json'))['property'])")
  echo "== $id ($p)"; LINES_OUT=${LINES_OUT:-2} /verif/tools/try.sh /verif/seeded/$id/patch.diff $p $EXTRA
done
