#!/bin/bash
# developer aid: apply each planted bug to a scratch clone of /repo in turn and run the check of its property
for i in "$@"; do
	d=/verif/seeded/$i; p=$(python3 -c "import json;print(json.load(open('$d/meta.json'))['property'])")
	rm -rf /tmp/seedrun; git clone -q ${FROM:-/repo} /tmp/seedrun; git -C /tmp/seedrun apply $d/patch.diff || { echo "== $i does not apply"; continue; }
	out=$(cd /verif; VERIF_REPO=/tmp/seedrun timeout 900 python3 check.py ${CHECK:-$p} 2>&1); rc=$?
	echo "== $i ${CHECK:-$p} exit $rc: $(echo "$out" | grep -v KNOWN | head -4 | cut -c1-300 | tr '\n' ' ')"
done
