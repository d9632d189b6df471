#!/bin/bash
# tools/try.sh ID...: the quick check of each planted bug's property, with the bug applied to a copy of /repo
cd /verif
for s in "$@"; do
  d=$(mktemp -d /tmp/try.XXXX); cp -a /repo/. $d
  git -C $d apply /verif/seeded/$s/patch.diff || echo "NOAPPLY $s"
  p=$(python3 -c "import json;print(json.load(open('/verif/seeded/$s/meta.json'))['property'])")
  out=$(VERIF_REPO=$d python3 check.py $p 2>&1); rc=$?
  echo "$s rc=$rc $(echo "$out" | grep -a VIOLATION | head -1) $(echo "$out" | tail -1 | cut -c1-120)"
  rm -rf $d
done
