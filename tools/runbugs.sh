#!/bin/bash
# runbugs.sh [pattern] [tier]: run each planted bug's own check against it
cd /verif
for d in seeded/${1-*}/; do
	id=$(basename "$d")
	p=$(python3 -c "import json;print(json.load(open('$d/meta.json'))['property'])")
	git -C /repo apply "/verif/$d/patch.diff" || { echo "$id $p NOAPPLY"; continue; }
	s=$(date +%s)
	out=$(VERIF_SEED=${VERIF_SEED-1} timeout 900 ./check.sh "$p" "${2-quick}" 2>&1)
	rc=$?
	git -C /repo checkout -q -- .
	v=$(grep -c "^VIOLATION property=$p " <<<"$out")
	echo "$id $p rc=$rc violations=$v $(($(date +%s) - s))s"
done
