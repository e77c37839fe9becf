#!/bin/bash
# tryseed.sh ID...: applies each planted bug to a scratch copy and runs the property's check there (DV_REPO)
for id in "$@"; do
  P=$(python3 -c "import json;print(json.load(open('/verif/seeded/$id/meta.json'))['property'])")
  T=$(mktemp -d /tmp/ts.XXXX); cp -a /repo $T/repo; git -C $T/repo checkout -q -- . ; git -C $T/repo apply /verif/seeded/$id/patch.diff || echo APPLYFAIL
  s=$(date +%s); DV_REPO=$T/repo /verif/check $P > $T/out 2>&1; rc=$?
  echo "== $id $P rc=$rc $(( $(date +%s)-s ))s: $(grep -a VIOLATION $T/out | head -3)"
  rm -rf $T
done
