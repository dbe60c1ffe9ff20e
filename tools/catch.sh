#!/bin/bash
# tools/catch.sh ID...: does each planted bug's check catch it? (in scratch copies; development aid)
cd /verif
for s in "$@"; do
  p=$(python3 -c "import json;print(json.load(open('seeded/$s/meta.json'))['property'])")
  echo "$s $p: $(tools/mutsed.sh $p @/verif/seeded/$s/patch.diff 2>&1 | grep -v 'GLPK\|glpk' | tail -1 | cut -c1-200)"
done
