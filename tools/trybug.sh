#!/bin/bash
# trybug.sh ID [CHECK...]: in a private view of /repo and /verif, applies seeded/ID's patch, builds, runs the
# tests, the demo on both trees, and the checks (default: the property's), quick tier.
ID=$1; shift
P=/tmp/plant/$ID; rm -rf $P; mkdir -p $P
cp -a /repo $P/repo; mkdir $P/verif; cd /verif && cp -a $(ls | grep -v -e '^work$' -e '^seeded$') $P/verif/; mkdir $P/verif/work; cp -a /verif/seeded/$ID $P/demo
CH="$*"; [ -z "$CH" ] && CH=$(python3 -c "import json;print(json.load(open('/verif/seeded/$ID/meta.json'))['property'])")
export CH ID P
unshare -Urm bash -c '
mount --bind $P/repo /repo; mount --bind $P/verif /verif
cd /repo; bash /opt/vp/build.sh >$P/b0.log 2>&1 || echo BUILD0-FAIL
bash $P/demo/demo.sh >$P/d0.log 2>&1; D0=$?
git apply --whitespace=nowarn $P/demo/patch.diff || echo APPLY-FAIL
bash /opt/vp/test.sh $P/o.json >$P/t.log 2>&1
T=$(python3 -c "
import json
b=set(json.load(open(\"/opt/vp/BASELINE.json\"))[\"stable\"]);o=set(json.load(open(\"$P/o.json\"))[\"passed\"]);print(len(b-o))")
bash $P/demo/demo.sh >$P/d1.log 2>&1; D1=$?
echo "$ID demo clean=$D0 patched=$D1 missing-tests=$T"
cd /verif
for c in $CH; do S=$(date +%s); VERIF_SEED=1 VERIF_TIER=quick ./check $c --tier quick >$P/c_$c.log 2>&1; R=$?; echo "$ID check $c exit=$R $(( $(date +%s)-S ))s $(grep -m1 -c VIOLATION $P/c_$c.log) $(tail -1 $P/c_$c.log | cut -c1-150)"; done
'
rm -rf $P/repo $P/verif
