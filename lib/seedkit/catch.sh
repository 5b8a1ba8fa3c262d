#!/bin/bash
# catch.sh id...: run the check of each planted bug's property with the bug in /repo (or a copy R, with a copy V of /verif that uses it)
R=${R:-/repo}; V=${V:-/verif}
for id in "$@"; do
s=/verif/seeded/$id
p=$(python3 -c "import json;print(json.load(open('$s/meta.json'))['property'])")
[ -n "$(git -C $R status --short)" ] && { echo "$R not clean"; exit 1; }
git -C $R apply $s/patch.diff || continue
(cd $V && VERIF_REPO=$R timeout 900 python3 lib/check.py ${P:-$p} >/tmp/catch-$id.log 2>&1); r=$?
git -C $R checkout -- .
echo "$id ${P:-$p}: exit $r: $(grep -m1 -E 'VIOLATION|CHECK-ERROR' /tmp/catch-$id.log | cut -c1-160)"
done
