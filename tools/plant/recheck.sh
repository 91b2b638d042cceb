#!/bin/bash
# Runs the check of every planted change (or of those named) on a scratch copy
# of /repo with that change applied, and prints CAUGHT or MISSED for each.
cd "$(dirname "$0")/../.." || exit 2
verif=$(pwd)
copy=/tmp/plant-recheck
ids=("$@")
[ ${#ids[@]} = 0 ] && ids=($(ls seeded))
for id in "${ids[@]}"; do
	prop=$(python3 -c "import json;print(json.load(open('seeded/$id/meta.json'))['property'])")
	rm -rf /tmp/plant-recheck
	cp -a /repo "$copy"
	git -C "$copy" apply "$verif/seeded/$id/patch.diff" || { echo "$id NOAPPLY"; continue; }
	s=$(date +%s)
	out=$(VERIF_REPO=$copy ./check.sh "$prop" 2>&1)
	rc=$?
	e=$(date +%s)
	if [ $rc = 1 ] && grep -q "^VIOLATION property=$prop" <<<"$out"; then v=CAUGHT; else v="MISSED rc=$rc"; fi
	echo "$id $prop $v $((e - s))s"
done
rm -rf /tmp/plant-recheck
