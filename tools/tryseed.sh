#!/bin/bash
# tryseed.sh ID... : build an unchanged and a patched copy, run the demonstration in both, run the tests in the patched one
# if TESTS=1, and the property's check.  Works on a copy of /repo bound at /repo inside a private mount? (not available):
# applies the patch in /repo, rebuilds, runs, and restores.
for id in "$@"; do
S=/verif/seeded/$id
prop=$(python3 -c "import json;print(json.load(open('$S/meta.json'))['property'])")
git -C /repo diff --quiet || { echo "/repo not clean"; exit 1; }
bash /opt/vp/build.sh >/tmp/ts.build 2>&1
cp -r $S /tmp/ts.demo; (cd /repo; timeout 300 bash /tmp/ts.demo/demo.sh >/tmp/ts.clean 2>&1); r0=$?
git -C /repo apply $S/patch.diff || { rm -rf /tmp/ts.demo; continue; }
bash /opt/vp/build.sh >/tmp/ts.build 2>&1 || echo BUILD-FAILED
(cd /repo; timeout 300 bash /tmp/ts.demo/demo.sh >/tmp/ts.patched 2>&1); r1=$?
t=-; if [ -n "${TESTS:-}" ]; then bash /opt/vp/test.sh /tmp/ts.json >/dev/null 2>&1; t=$(python3 - <<'E'
import json
b=json.load(open('/opt/vp/BASELINE.json')); o=json.load(open('/tmp/ts.json'))
st=b.get('stable') or b.get('passed') or b
ps=set(o.get('passed',[]))
print('failing:',[x for x in st if x not in ps][:5])
E
); fi
(cd /verif; VERIF_EVID=/tmp/ts.ev ./check $prop > /tmp/ts.check); rc=$?
git -C /repo checkout -- .
rm -rf /tmp/ts.demo
echo "$id ($prop): demo clean=$r0 patched=$r1 tests=$t check rc=$rc $(grep -m1 -E '^  /|ERROR' /tmp/ts.check | cut -c1-160)"
done
bash /opt/vp/build.sh >/tmp/ts.build 2>&1
