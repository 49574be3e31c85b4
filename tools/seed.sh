#!/bin/bash
# developer aid: seed.sh ID [PROP]: validate planted bug seeded/ID in /repo (demo clean, apply, build, tests, demo, check, undo)
V=/verif; ID=$1; D=$V/seeded/$ID
P=$(python3 -c "import json;print(json.load(open('$D/meta.json'))['property'])")
cd /repo && git diff --quiet || { echo "repo dirty"; exit 2; }
bash /opt/vp/build.sh >/tmp/seed_build.log 2>&1
T=/tmp/seeddemo.$$; cp -a $D $T; rm -f $T/patch.diff $T/meta.json
bash $T/demo.sh >/tmp/seed_demo0.log 2>&1; a=$?
git apply $D/patch.diff || { echo "$ID: patch does not apply"; rm -rf $T; exit 2; }
bash /opt/vp/test.sh /tmp/seed_t.json >/tmp/seed_t.log 2>&1
n=$(python3 -c "
import json;b=json.load(open('/opt/vp/BASELINE.json'));t=json.load(open('/tmp/seed_t.json'))
bl=b.get('passed') or b.get('tests') or b.get('stable') or b
print([x for x in bl if x not in set(t['passed'])][:5], len(t['passed']))")
bash $T/demo.sh >/tmp/seed_demo1.log 2>&1; b=$?
c=$(cd $V && timeout 900 ./check.py $P 2>&1 | grep -E "VIOLATION|input:|observed" | cut -c1-200 | head -4)
git checkout -q -- .
rm -rf $T
echo "== $ID [$P] demo clean=$a patched=$b  lost tests: $n"
echo "$c"
