#!/bin/bash
# tryseed.sh ID...: demo on the clean tree, then with the patch: build, tests, demo, the property's check
for id in "$@"; do
 s=/verif/seeded/$id; p=$(python3 -c "import json;print(json.load(open('$s/meta.json'))['property'])")
 cd /repo; [ -z "$(git status --porcelain)" ] || { echo dirty; exit 1; }
 if [ -z "$NODEMO" ]; then bash $s/demo.sh > /tmp/d0 2>&1; echo "$id demo clean: $?"; [ -s /tmp/d0 ] && tail -3 /tmp/d0; fi
 git apply $s/patch.diff || exit 1
 if [ -z "$NODEMO" ]; then
 bash /opt/vp/build.sh > /tmp/b0 2>&1 || { echo "BUILD FAILS"; tail -5 /tmp/b0; }
 bash /opt/vp/test.sh /tmp/t0.json > /dev/null 2>&1
 python3 - <<'P'
import json
b=json.load(open('/opt/vp/BASELINE.json'));t=json.load(open('/tmp/t0.json'))
want=b.get('stable') or b.get('passed') or b
bad=[x for x in want if x not in t['passed']]
print("  tests:", len(want), "stable, failing:", bad)
P
 bash $s/demo.sh > /tmp/d1 2>&1; echo "  demo patched: $?"; tail -2 /tmp/d1
 fi
 cd /verif; ./run.py $p > /tmp/c1 2>&1; echo "  check $p: $? $(grep -a -c VIOLATION /tmp/c1)"; grep -a -A1 VIOLATION /tmp/c1 | head -2 | cut -c1-250
 cd /repo; git checkout -q -- .
done
