#!/bin/bash
# Runs the checks (default: the bug's own, quick) against a planted bug.
#   trybug.sh ID [PROP...]
ID=$1; shift
cd ${VC:-/verif} || exit 1
PROPS=${*:-$(python3 -c "import json;print(json.load(open('/verif/seeded/$ID/meta.json'))['property'])")}
[ -z "$(git -C /repo status --porcelain)" ] || { echo "/repo is not clean"; exit 1; }
git -C /repo apply "/verif/seeded/$ID/patch.diff" || exit 1
trap 'git -C /repo checkout -q -- .' EXIT
for p in $PROPS; do
	s=$(date +%s)
	VERIF_SEED=${VERIF_SEED:-1} VERIF_TIER=quick timeout 900 python3 run.py "$p" > /tmp/trybug.log 2>&1
	rc=$?
	echo "$ID $p rc=$rc $(($(date +%s)-s))s $(grep -m1 VIOLATION /tmp/trybug.log)"
done
