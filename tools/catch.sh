#!/bin/bash
# catch.sh [ID...]: runs the check of each planted bug's property with the bug applied to /repo
cd /verif; for s in ${@:-$(ls seeded)}; do p=$(python3 -c "import json;print(json.load(open('seeded/$s/meta.json'))['property'])"); tools/seed.sh check $s $p 2>&1 | tail -2; done
