#!/bin/bash
# tools/seedtest.sh ID [nocheck]: confirms a planted change in a scratch copy of
# /repo that is bind-mounted over /repo in a private mount namespace: builds,
# runs the stable tests, the demonstration with and without the change, and the
# check of its property.
id=$1; V=/verif; S=/tmp/seedw.$id
rm -rf "$S"; cp -a /repo "$S"
unshare -m bash -c '
id='$id'; S='$S'
mount --bind $S /repo; cd /repo
D=$(mktemp -d /tmp/demo.XXXX); cp -a /verif/seeded/$id/. $D; rm -f $D/*.diff $D/meta.json
bash /opt/vp/build.sh >/tmp/seed.$id.build0 2>&1 || echo "BUILD0 FAILED"
( timeout 300 bash $D/demo.sh >/tmp/seed.$id.demo0 2>&1; echo "$id demo clean rc=$?" )
git apply /verif/seeded/$id/patch.diff || { echo "$id APPLY FAILED"; exit 1; }
bash /opt/vp/build.sh >/tmp/seed.$id.build1 2>&1 || echo "$id BUILD FAILED"
( timeout 300 bash $D/demo.sh >/tmp/seed.$id.demo1 2>&1; echo "$id demo patched rc=$?" )
if [ "$2" != notest ]; then
bash /opt/vp/test.sh /tmp/seed.$id.json >/tmp/seed.$id.test 2>&1
python3 - <<E2
import json
b=json.load(open("/opt/vp/BASELINE.json")); r=json.load(open("/tmp/seed.$id.json"))
base=b if isinstance(b,list) else b.get("passed") or b.get("tests") or b.get("stable")
print("$id tests: missing", [x for x in base if x not in set(r["passed"])][:3])
E2
fi
rm -rf $D
' x "$@"
if [ "$2" != nocheck -a "$3" != nocheck ]; then
  p=$(python3 -c "import json;print(json.load(open('$V/seeded/$id/meta.json'))['property'])")
  VERIF_REPO=$S $V/check $p > /tmp/seed.$id.check 2>&1; echo "$id check $p rc=$?"; grep -h VIOLATION -A1 /tmp/seed.$id.check | head -3; grep INCONCL /tmp/seed.$id.check | head -2
fi
rm -rf "$S"
