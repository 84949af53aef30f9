#!/bin/bash
# tools/tryseed.sh ID [check IDs...]: development helper, verifies a planted bug in a scratch worktree (/tmp/sc)
# and runs the given checks against it.
export LC_ALL=C.UTF-8
id=$1; shift; S=/verif/seeded/$id; W=/tmp/sc; prop=$(python3 -c "import json;print(json.load(open('$S/meta.json'))['property'])")
[ -d $W ] || git -C /repo worktree add -q --detach $W HEAD
cd $W; git checkout -q -- .; git checkout -q --detach $(git -C /repo rev-parse HEAD)
[ -d _build ] || cmake -S $W -B $W/_build -G Ninja -DCMAKE_BUILD_TYPE=Release -DCMAKE_C_COMPILER=/usr/bin/gcc -DCMAKE_CXX_COMPILER=/usr/bin/g++ -DGIT_SUBMODULE=OFF -DBUILD_DISKPP_UNIT_TESTS=ON -DCMAKE_PROJECT_TOP_LEVEL_INCLUDES=/opt/vp/offline.cmake > /tmp/sc_conf.log 2>&1
git apply --check $S/patch.diff || { echo "$id: PATCH DOES NOT APPLY"; exit 1; }
if [ -z "$NODEMO" ]; then
bash $S/demo.sh > /tmp/sc_demo0.log 2>&1 && echo "$id: demo clean ok" || { echo "$id: DEMO FAILS ON CLEAN"; tail -5 /tmp/sc_demo0.log; }
git apply $S/patch.diff
bash $S/demo.sh > /tmp/sc_demo1.log 2>&1 && echo "$id: DEMO PASSES WITH PATCH" || echo "$id: demo fails with patch: $(tail -1 /tmp/sc_demo1.log)"
else git apply $S/patch.diff; fi
if [ -n "$FULL" ]; then
ninja -C _build > /tmp/sc_build.log 2>&1 || echo "$id: BUILD FAILS"
R=_build/vp-reports; mkdir -p $R
ctest --test-dir _build -j 8 --timeout 300 --test-output-size-passed 10000000 --test-output-size-failed 10000000 --output-junit $W/$R/ctest.xml >/dev/null 2>&1
python3 /opt/vp/checks.py $R/ctest.xml > $R/checks.lines 2>/dev/null; : > $R/apps.lines
for t in elemtriangulation test_behaviors; do (cd $R; timeout 300 ../apps/tests/$t >/dev/null 2>&1 </dev/null) && echo "PASS apps/tests/$t" >> $R/apps.lines || echo "FAIL apps/tests/$t" >> $R/apps.lines; done
python3 /opt/vp/results.py /tmp/sc_out.json junit:$R/ctest.xml lines:$R/checks.lines lines:$R/apps.lines >/dev/null
python3 -c "
import json;o=json.load(open('/tmp/sc_out.json'));b=json.load(open('/opt/vp/BASELINE.json'));m=set(b['stable'])-set(o['passed']);print('$id: tests ok' if not m else '$id: TESTS FAIL %s'%m)"
fi
for c in ${@:-$prop}; do VERIF_REPO=$W VERIF_BUILD=/tmp/sc_vb VERIF_SEED=1 VERIF_TIER=quick python3 /verif/check.py $c quick > /tmp/sc_chk.$c 2>&1; rc=$?; echo "$id: check $c rc $rc $(grep -m2 VIOLATION /tmp/sc_chk.$c | tr '\n' ' ')"; done
git checkout -q -- .
