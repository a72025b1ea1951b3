#!/bin/bash
# tryseed.sh ID...: for each seeded bug, run its demo without and with the patch, its
# property's quick check with the patch, and (with TESTS=1) the test suite.
for id in "$@"; do
 S=/verif/seeded/$id; P=$(python3 -c "import json;print(json.load(open('$S/meta.json'))['property'])")
 [ -z "$(git -C /repo status --short)" ] || { echo "/repo dirty"; exit 1; }
 (cd /repo && bash $S/demo.sh >/tmp/demo0.log 2>&1); d0=$?
 git -C /repo apply $S/patch.diff || exit 1
 (cd /repo && bash $S/demo.sh >/tmp/demo1.log 2>&1); d1=$?
 t=-
 if [ -n "$TESTS" ]; then bash /opt/vp/build.sh >/tmp/b.log 2>&1; bash /opt/vp/test.sh /tmp/t.json >/tmp/t.log 2>&1; t=$(python3 - <<'P'
import json
b=json.load(open('/opt/vp/BASELINE.json')); t=json.load(open('/tmp/t.json'))
base=b if isinstance(b,list) else b.get('passed') or b.get('stable') or b.get('tests')
ps=set(t['passed']); m=[x for x in base if x not in ps]
print(len(m), m[:3])
P
); fi
 (cd /verif && ./check.sh $P quick >/tmp/c.log 2>&1); c=$?
 git -C /repo checkout -q -- .
 echo "$id prop=$P demo0=$d0 demo1=$d1 missing_tests=$t check=$c $(grep -m1 VIOLATION /tmp/c.log)"
done
