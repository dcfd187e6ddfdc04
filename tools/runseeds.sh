#!/bin/bash
# runseeds.sh [ID...]: runs the check of each planted bug's property on a copy of /repo with the bug.
cd /verif
ids=${*:-$(ls seeded)}
for id in $ids; do
  d=$(mktemp -d /tmp/seedrun.XXXX)
  git clone -q /repo $d/repo && git -C $d/repo apply /verif/seeded/$id/patch.diff || { echo "$id: does not apply"; rm -rf "$d"; continue; }
  prop=$(python3 -c "import json;print(json.load(open('/verif/seeded/$id/meta.json'))['property'])")
  out=$(VERIF_REPO_DIR=$d/repo bash check.sh $prop 2>&1); rc=$?
  echo "$id: rc=$rc $(echo "$out" | grep VIOLATION) | proof: $(echo "$out" | grep -c 'failed:') | $(echo "$out" | grep 'on the real' | cut -c1-150)"
  rm -rf "$d"
done
