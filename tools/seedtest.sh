#!/bin/bash
# development aid: seedtest.sh ID [CHECKS] [notests] -- confirms a planted bug in a scratch copy (/tmp/seedwt)
ID=$1; CK=$2; WT=/tmp/seedwt; S=/verif/seeded/$ID
for f in build test; do sed -e "s#/repo#$WT#g" -e "s#/opt/vp/build.sh#/tmp/seedwork/build.sh#g" /opt/vp/$f.sh >/tmp/seedwork/$f.sh; done
cd $WT && git checkout -q -- . && git fetch -q /repo HEAD && git reset -q --hard FETCH_HEAD
rm -rf /tmp/seeddemo && cp -r $S /tmp/seeddemo && rm -f /tmp/seeddemo/*.diff /tmp/seeddemo/meta.json
timeout 300 bash /tmp/seeddemo/demo.sh >/tmp/seedwork/$ID.demo0 2>&1; A=$?
git apply $S/patch.diff || { echo "$ID: patch does not apply"; exit 1; }
timeout 300 bash /tmp/seeddemo/demo.sh >/tmp/seedwork/$ID.demo1 2>&1; B=$?
T=skipped
if [ "$3" != notests ]; then bash /tmp/seedwork/test.sh /tmp/seedwork/$ID.json >/tmp/seedwork/$ID.log 2>&1; T=$(python3 -c "import json;d=json.load(open('/tmp/seedwork/$ID.json'));print(len(d['passed']),'passed',d['failed'])"); fi
C=""
for c in ${CK//,/ }; do cd /verif; VERIF_REPO=$WT python3 run.py $c >/tmp/seedwork/$ID.$c.log 2>&1; C="$C $c:rc=$? $(grep -c '^VIOLATION' /tmp/seedwork/$ID.$c.log)"; done
cd $WT && git checkout -q -- .
echo "$ID demo unpatched=$A patched=$B tests=$T checks:$C"
