#!/bin/bash
# trybug.sh ID [args]: run the check of the planted bug's property against the bug
id=$1; shift
P=$(python3 -c "import json;print(json.load(open('/verif/seeded/$id/meta.json'))['property'])")
git -C /repo apply /verif/seeded/$id/patch.diff || exit 1
(cd /verif && VERIF_SEED=${VERIF_SEED:-1} VERIF_TIER=quick bash tools/check.sh $P quick "$@" > /tmp/try-$id.log 2>&1; echo "$id $P rc=$? $(grep -E 'VIOLATION' /tmp/try-$id.log | head -2)")
git -C /repo checkout -q -- .
