#!/bin/bash
# development tool: runseeds.sh ID...  runs the property's quick check against each planted bug, in a scratch clone of /repo
for id in "$@"; do
  T=$(mktemp -d /tmp/rs_XXXX)
  git clone -q /repo $T/repo && git -C $T/repo apply /verif/seeded/$id/patch.diff || { echo "$id PATCH FAILS"; rm -rf "$T"; continue; }
  P=$(python3 -c "import json;print(json.load(open('/verif/seeded/$id/meta.json'))['property'])")
  cp -r /verif $T/verif
  (cd $T/verif && VERIF_REPO=$T/repo VERIF_SEED=1 timeout 900 python3 check.py $P --tier quick > $T/out 2>&1; echo "$id rc=$? $(grep -c VIOLATION $T/out) $(grep -h 'obligation' $T/out | cut -c1-160 | head -3)")
  rm -rf "$T"
done
