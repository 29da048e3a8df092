#!/bin/bash
# runseeds.sh [id...]: applies each planted bug to a scratch worktree of /repo and runs the check of its property (quick) on that
cd /verif
[ $# -gt 0 ] || set -- $(ls seeded)
WT=/tmp/seedrun
git -C /repo worktree prune
[ -d $WT ] || git -C /repo worktree add -q -f --detach $WT HEAD
git -C $WT checkout -q --detach $(git -C /repo rev-parse HEAD)
for s in "$@"; do
  git -C $WT checkout -q -- .
  p=$(python3 -c "import json;print(json.load(open('seeded/$s/meta.json'))['property'])")
  git -C $WT apply /verif/seeded/$s/patch.diff || { echo "$s does not apply"; continue; }
  V_REPO=$WT timeout 900 python3 check.py $p quick > /tmp/rs_$s.txt 2>&1; rc=$?
  git -C $WT checkout -q -- .
  echo "$s $p rc=$rc $(grep -m1 VIOLATION /tmp/rs_$s.txt | cut -c1-100) $(grep -m1 -i "alarm\|ASSERT\|LEAK" /tmp/rs_$s.txt | cut -c1-150)"
done
