#!/bin/bash
# tryseed.sh <id> [notest]: the demo passes on the clean tree and fails with the patch; the stable tests pass with it; the property's quick check catches it.
# Works on a copy of /repo (bound over nothing: the scripts are pointed at the copy).
id=$1; S=/verif/seeded/$id; W=/tmp/try-$id
set -u
rm -rf $W; cp -a ${BASE:-/repo} $W; cd $W
mkdir -p /tmp/opt-$id; for f in build.sh test.sh run_tests.py; do sed "s#/repo#$W#g" /opt/vp/$f | sed "s#/opt/vp/build.sh#/tmp/opt-$id/build.sh#g; s#/opt/vp/run_tests.py#/tmp/opt-$id/run_tests.py#g" > /tmp/opt-$id/$f; done
prop=$(python3 -c "import json;print(json.load(open('$S/meta.json'))['property'])")
bash /tmp/opt-$id/build.sh > /tmp/opt-$id/b0.log 2>&1 || echo "clean build failed"
timeout 300 bash $S/demo.sh > /tmp/opt-$id/d0.log 2>&1 && echo "$id demo clean: ok" || { echo "$id demo clean: FAILS"; cat /tmp/opt-$id/d0.log; }
git apply $S/patch.diff || { echo "$id: does not apply"; exit 1; }
bash /tmp/opt-$id/build.sh > /tmp/opt-$id/b1.log 2>&1 || { echo "$id: patched build FAILS"; tail /tmp/opt-$id/b1.log; }
timeout 300 bash $S/demo.sh > /tmp/opt-$id/d1.log 2>&1 && echo "$id demo patched: NOT DETECTED" || echo "$id demo patched: fails as it should: $(tail -1 /tmp/opt-$id/d1.log | cut -c1-200)"
if [ "${2:-}" != notest ]; then
  bash /tmp/opt-$id/test.sh /tmp/opt-$id/out.json > /tmp/opt-$id/t.log 2>&1
  python3 - <<P
import json
b=json.load(open('/opt/vp/BASELINE.json')); o=json.load(open('/tmp/opt-$id/out.json'))
st=b['stable']
miss=[t for t in st if t not in set(o['passed'])]
print('$id tests: %d of %d stable pass%s' % (len(st)-len(miss), len(st), '' if not miss else ' MISSING '+str(miss[:5])))
P
fi
VC=/tmp/vcopy-$id; rm -rf $VC; mkdir $VC; (cd /verif && cp -a lib spec build check.py known_findings.txt properties.jsonl $VC/)
ARCUS_REPO=$W timeout 900 python3 $VC/check.py $prop > /tmp/opt-$id/c.log 2>&1; echo "$id check $prop exit $?: $(tail -2 /tmp/opt-$id/c.log | cut -c1-300 | tr '\n' ' ')"
rm -rf $W
rm -rf $VC
