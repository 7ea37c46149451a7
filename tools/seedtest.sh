#!/bin/bash
# seedtest.sh ID [notest]: on a scratch copy of /repo bind-mounted over /repo: demo unpatched, patch, build, stable tests, demo, and the check of its property
id=$1; s=/verif/seeded/$id; w=/tmp/seedtest/$id
mkdir -p "$w"; rm -rf "/tmp/seedtest/$id/repo" "/tmp/seedtest/$id/vp" "/tmp/seedtest/$id/demo"
cp -a /repo $w/repo; cp -a /opt/vp $w/vp; mkdir $w/demo; cp $s/* $w/demo/; rm -f "/tmp/seedtest/$id/demo/patch.diff" "/tmp/seedtest/$id/demo/meta.json"
prop=$(python3 -c "import json;print(json.load(open('$s/meta.json'))['property'])")
unshare -rm bash -c "mount --bind $w/repo /repo; mount --bind $w/vp /opt/vp; cd /repo
git checkout -q -- . ; bash /opt/vp/build.sh >$w/build0.log 2>&1 || echo BUILD0-FAILED
timeout 300 $w/demo/demo.sh >$w/demo0.log 2>&1; echo \"$id demo unpatched: \$?\"
git apply $s/patch.diff || echo APPLY-FAILED
bash /opt/vp/build.sh >$w/build.log 2>&1 || echo BUILD-FAILED
timeout 300 $w/demo/demo.sh >$w/demo1.log 2>&1; echo \"$id demo patched: \$?\"
if [ -z '$2' ]; then bash /opt/vp/test.sh $w/t.json >$w/t.log 2>&1
python3 -c \"
import json
b=json.load(open('/opt/vp/BASELINE.json'))['stable']; r=json.load(open('$w/t.json')); m=sorted(set(b)-set(r['passed'])); print('$id tests broken:',len(m),m[:4])\"; fi
cd /verif; VERIF_TIER=quick VERIF_SEED=1 VERIF_REPLAYS=$w VERIF_BUILD=$w/vb timeout 900 python3 run.py $prop >$w/check.log 2>&1; echo \"$id $prop check: \$?\" \$(grep -m2 -B0 '^#' $w/check.log | cut -c1-160)
"
rm -rf "/tmp/seedtest/$id/repo" "/tmp/seedtest/$id/vb" "/tmp/seedtest/$id/vp"
