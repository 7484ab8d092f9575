#!/bin/bash
# seedtest.sh ID [CHECK...]: confirm a planted bug (build, stable tests, demo both ways), then run its check
for id in "$1"; do shift
S=${SEEDDIR:-/verif/seeded}/$id; P=$(python3 -c "import json;print(json.load(open('$S/meta.json'))['property'])")
R=${SEEDREPO:-/repo}; B() { if [ $R = /repo ]; then bash /opt/vp/build.sh; else sed "s#/repo#$R#g" /opt/vp/build.sh | bash; fi; }
cd $R; [ -z "$(git status --porcelain)" ] || { echo dirty; exit 9; }
B >/tmp/b0.log 2>&1 || echo "BASE BUILD FAILS"
rm -rf /tmp/dm; cp -a $S /tmp/dm; rm -f /tmp/dm/*.diff /tmp/dm/meta.json; sed -i "s#/repo#$R#g" /tmp/dm/demo.sh
bash /tmp/dm/demo.sh >/tmp/d0.log 2>&1; a=$?
git apply $S/patch.diff || { echo "patch fails"; exit 9; }
if B >/tmp/b1.log 2>&1; then
 sed "s#/repo#$R#g; s#bash /opt/vp/build.sh#true#" /opt/vp/test.sh > /tmp/st.sh; bash /tmp/st.sh /tmp/o.json >/dev/null 2>&1; n=$(python3 -c "import json;print(len(json.load(open('/tmp/o.json'))['passed']))")
 bash /tmp/dm/demo.sh >/tmp/d1.log 2>&1; b=$?
else n=build-fails; b=?; fi
echo "$id ($P): tests passed=$n demo base=$a patched=$b : $(tail -c 150 /tmp/d1.log | tr '\n' ' ')"
for c in ${@:-$P}; do KV_REPO=$R KV_BUILD=${SB:-/tmp/seedb} timeout 900 /verif/check.py $c 2>&1 | grep -E "^(oracle|crash|hang|asan|VIOL)|^C..:" | head -4; done
git checkout -q -- .; B >/tmp/b0.log 2>&1
done
