#!/bin/bash
# development aid: tryseed.sh ID...   in a private mount namespace: build + demo on the clean tree, then with the patch: build, demo, tests
for id in "$@"; do (
d=/verif/seeded/$id
w=$(mktemp -d /tmp/s/w.XXXXXX); cp -a /repo "$w/repo"; mkdir "$w/demo"; cp -a $d/. "$w/demo/"; rm -f "$w"/demo/*.diff "$w/demo/meta.json"
unshare -m bash -c "
mount --make-rprivate / ; mount --bind $w/repo /repo; cd /repo
bash /opt/vp/build.sh >/dev/null 2>&1 || { echo $id BUILD0; exit; }
t0=\$SECONDS; timeout 300 bash $w/demo/demo.sh > $w/d0.log 2>&1; r0=\$?; t1=\$SECONDS
git apply $d/patch.diff || { echo $id NOAPPLY; exit; }
bash /opt/vp/build.sh > $w/b.log 2>&1 || { echo $id BUILD1; tail -3 $w/b.log; exit; }
timeout 300 bash $w/demo/demo.sh > $w/d1.log 2>&1; r1=\$?
t2=\$SECONDS
if [ -z \"\$NOTEST\" ]; then bash /opt/vp/test.sh $w/o.json > $w/t.log 2>&1
tr=\$(python3 -c \"
import json
b=set(json.load(open('/opt/vp/BASELINE.json'))['stable']); p=set(json.load(open('$w/o.json'))['passed']); print('missing',len(b-p), list(b-p)[:3])\"); fi
echo \"$id clean=\$r0 (\$((t1-t0))s) patched=\$r1 (\$((t2-t1))s) tests: \$tr\"
tail -2 $w/d1.log
"
rm -rf "$w"
) & done; wait
