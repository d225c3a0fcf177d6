#!/bin/bash
# seedtest.sh ID [PROP...]: confirm a planted change (builds, tests pass, demo discriminates) and run checks against it. Leaves /repo clean.
ID=$1; shift; S=/verif/seeded/$ID; P="${@:-$(python3 -c "import json;print(json.load(open('$S/meta.json'))['property'])")}"
git -C /repo diff --quiet || { echo "repo dirty"; exit 1; }
restore() { git -C /repo checkout -q -- .; bash /opt/vp/build.sh > /tmp/sb.build.log 2>&1; }
trap restore EXIT
if [ -z "$SKIP_DEMO" ]; then
restore; (cd /repo && timeout 300 bash $S/demo.sh > /tmp/sb.demo0 2>&1); echo "demo clean rc=$? (want 0)"; tail -2 /tmp/sb.demo0
fi
git -C /repo apply $S/patch.diff || exit 1
if [ -z "$SKIP_DEMO" ]; then
bash /opt/vp/build.sh > /tmp/sb.build.log 2>&1 || { echo BUILD FAILED; tail -20 /tmp/sb.build.log; exit 1; }
(cd /repo && timeout 300 bash $S/demo.sh > /tmp/sb.demo1 2>&1); echo "demo patched rc=$? (want nonzero)"; tail -2 /tmp/sb.demo1
fi
if [ -z "$SKIP_TEST" ]; then bash /opt/vp/test.sh /tmp/t.json > /tmp/sb.test.log 2>&1; python3 - <<'X'
import json
b=json.load(open('/opt/vp/BASELINE.json')); t=json.load(open('/tmp/t.json'))
want=set(b["stable"]); got=set(t["passed"])
print("stable", len(want), "missing", sorted(want-got)[:6])
X
fi
for p in $P; do (cd /verif && VERIF_SEED=${VERIF_SEED:-1} python3 check.py $p --tier=quick > /tmp/sb.check.$p 2>&1); echo "check $p rc=$? $(grep -a VIOLATION /tmp/sb.check.$p | head -3)"; grep -a -i "viol\|class" /tmp/sb.check.$p | head -3 | cut -c1-400; done
