#!/bin/bash
# seedrun.sh <id> [PROP...]: applies a seed to /repo, runs the checks (default: the seed's property), reverts it.
id=$1; shift; S=/verif/seeded/$id; P=${*:-$(python3 -c "import json;print(json.load(open('$S/meta.json'))['property'])")}
cd /repo && git apply $S/patch.diff || exit 1
for p in $P; do cd /verif; timeout 900 python3 run.py $p > /tmp/seedrun.$id.$p 2>&1; echo "$id $p rc=$? $(grep -m1 VIOLATION /tmp/seedrun.$id.$p | cut -c1-150) :: $(grep -m1 -i 'what\|message' /tmp/seedrun.$id.$p | cut -c1-160)"; done
cd /repo && git checkout -q -- .
