#!/bin/bash
# seed.sh ID [nochecks]: inside a world (world.sh), confirms the planted bug seeded/ID and runs its property's check on it
id=$1
d=/verif/seeded/$id
p=$(python3 -c "import json,sys; print(json.load(open('$d/meta.json'))['property'])")
cd /repo && git checkout -q -- . || exit 3
res="$id $p:"
t=$(mktemp -d)
cp -r "$d" "$t/x"; rm -f "$t"/x/*.diff "$t"/x/meta.json
timeout 300 bash "$t/x/demo.sh" > "$t/clean.log" 2>&1; res+=" clean=$?"
git apply "$d/patch.diff" || { echo "$res APPLY FAILED"; exit 3; }
timeout 300 bash "$t/x/demo.sh" > "$t/bad.log" 2>&1; res+=" patched=$?"
if [ "${SUITE:-1}" = 1 ]; then
  bash /opt/vp/build.sh > "$t/build.log" 2>&1; res+=" build=$?"
  bash /opt/vp/test.sh "$t/out.json" > "$t/test.log" 2>&1
  res+=" $(python3 - "$t/out.json" <<'P'
import json,sys
b=set(json.load(open('/opt/vp/BASELINE.json'))['stable']); o=set(json.load(open(sys.argv[1]))['passed'])
miss=sorted(b-o)
print('suite-broken=%d %s'%(len(miss),miss[:2]))
P
)"
fi
for q in ${CHECKS:-$p}; do
  (cd /verif && VERIF_SEED=1 VERIF_TIER=quick timeout 900 python3 check.py "$q") > "$t/check-$q.log" 2>&1; rc=$?
  res+=" check[$q]=$rc $(grep -m1 -B1 '^VIOLATION' "$t/check-$q.log" | head -1)"
done
git checkout -q -- .
echo "$res"
tail -n 3 -v "$t/clean.log" "$t/bad.log" > "/tmp/seed-$id.log"
cp "$t"/check*.log /tmp/ 2>/dev/null; rm -rf "$t"
