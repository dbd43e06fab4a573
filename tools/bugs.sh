#!/bin/bash
# runs the check of each planted bug's property against it (in a scratch copy): bugs.sh [id…]
cd "$(dirname "$0")/.." || exit 2
S=/tmp/bugs
mkdir -p $S/repo
ids=("$@"); [ ${#ids[@]} = 0 ] && ids=($(ls seeded))
for i in "${ids[@]}"; do
  rsync -a --delete --exclude target --exclude .git /repo/ $S/repo/
  (cd $S/repo && patch -p1 -s < /verif/seeded/$i/patch.diff) || { echo "BADPATCH $i"; continue; }
  p=$(python3 -c "import json;print(json.load(open('seeded/$i/meta.json'))['property'])")
  out=$(VERIF_REPO=$S/repo VERIF_CACHE=$S/cache VERIF_EVIDENCE=$S/evidence ./check.sh $p 2>&1); rc=$?
  echo "$([ $rc = 1 ] && echo caught || echo "MISSED rc=$rc") $i $(echo "$out" | grep -m2 '  key:')"
done
