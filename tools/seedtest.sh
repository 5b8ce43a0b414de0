#!/bin/bash
# seedtest.sh ID... : confirms planted bugs in a scratch copy of /repo bound over /repo in a private mount namespace
S=${SEEDSCRATCH:-/tmp/st}
mkdir -p $S
[ -d $S/repo ] || cp -a /repo $S/repo
for id in "$@"; do
D=/verif/seeded/$id
rm -rf $S/demo-$id; mkdir -p $S/demo-$id; cp $D/* $S/demo-$id/; rm -f $S/demo-$id/*.diff $S/demo-$id/meta.json
git -C $S/repo checkout -q -- . ; git -C $S/repo fetch -q /repo HEAD && git -C $S/repo reset -q --hard FETCH_HEAD
unshare -Urm bash -c "mount --bind $S/repo /repo; cd /repo
bash /opt/vp/build.sh >$S/log 2>&1 || { echo $id: CLEAN BUILD FAILED; exit 1; }
timeout 300 bash $S/demo-$id/demo.sh >$S/demo-$id/clean.log 2>&1; A=\$?
git apply $D/patch.diff || { echo $id: PATCH DOES NOT APPLY; exit 1; }
bash /opt/vp/test.sh $S/out.json >$S/log 2>&1 || { echo $id: TEST RUN FAILED; tail -5 $S/log; }
timeout 300 bash $S/demo-$id/demo.sh >$S/demo-$id/bug.log 2>&1; B=\$?
git checkout -q -- .
python3 - <<P
import json
b=set(json.load(open('/opt/vp/BASELINE.json'))['stable']); p=set(json.load(open('$S/out.json'))['passed'])
m=sorted(b-p)
ok = (\$A==0 and \$B!=0 and not m)
print('$id', 'OK' if ok else 'REJECT', 'demo clean', \$A, 'with bug', \$B, 'tests broken', len(m), m[:4])
P
"
done
