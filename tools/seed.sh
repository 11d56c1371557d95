#!/bin/bash
# tools/seed.sh ID [nocheck]: confirms one planted bug in /repo (applied, then undone) and runs its check on it.
id=$1; d=/verif/seeded/$id; prop=$(python3 -c "import json;print(json.load(open('$d/meta.json'))['property'])")
cd /repo || exit 9
[ -z "$(git status --porcelain)" ] || { echo "repo dirty"; exit 9; }
bash /opt/vp/build.sh >/tmp/seed_build.log 2>&1 || { echo "BASE BUILD FAILS"; exit 9; }
timeout 300 bash $d/demo.sh >/tmp/seed_demo0.log 2>&1; r0=$?
git apply $d/patch.diff || { echo "PATCH DOES NOT APPLY"; exit 9; }
if bash /opt/vp/build.sh >/tmp/seed_build.log 2>&1; then
  bash /opt/vp/test.sh /tmp/seed_test.json >/tmp/seed_test.log 2>&1
  t=$(python3 - <<'P'
import json
b=json.load(open('/opt/vp/BASELINE.json')); t=json.load(open('/tmp/seed_test.json'))
base=b.get('passed') or b.get('stable') or b.get('tests') or b
base=[x if isinstance(x,str) else x.get('name') for x in base]
print(len(set(base)-set(t['passed'])))
P
)
  timeout 300 bash $d/demo.sh >/tmp/seed_demo1.log 2>&1; r1=$?
else t=BUILDFAIL; r1=x; fi
c=skip
if [ "$2" != nocheck ]; then (cd /verif && timeout 900 python3 check.py $prop >/tmp/seed_check_$id.log 2>&1); c=$?; fi
git checkout -q -- .
echo "$id prop=$prop demo_base=$r0 demo_bug=$r1 tests_lost=$t check=$c $(grep -c 'no-failing' /tmp/seed_check_$id.log 2>/dev/null) $(grep -m2 'failed obligation' /tmp/seed_check_$id.log 2>/dev/null | tr '\n' ';')"
bash /opt/vp/build.sh >/tmp/seed_build.log 2>&1
