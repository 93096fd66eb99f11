#!/bin/bash
# tool/seedtest.sh ID [COPY]: confirm a planted change: it applies, builds, passes the stable tests, and
# its demo fails with it and passes without it.  Works in COPY (a scratch copy of /repo), which is shown
# as /repo in a private mount namespace; /repo itself is only read.
ID=$1; C=${2:-/tmp/s/r1}; S=/verif/seeded/$ID; L=/tmp/s/log.$ID
{
git -C $C checkout -q -- . ; git -C $C apply $S/patch.diff || { echo "$ID APPLY-FAILED"; exit 1; }
D=$(mktemp -d /tmp/s/d.XXXX); cp $S/* $D/; rm -f $D/patch.diff $D/meta.json
unshare -Urm bash -c "mount --bind $C /repo && cd /repo && bash /opt/vp/test.sh $D/out.json && timeout 300 bash $D/demo.sh; echo demo-with-rc=\$?"> $D/log 2>&1
tail -25 $D/log
W=$(grep -o 'demo-with-rc=.*' $D/log | tail -1)
git -C $C checkout -q -- .
(cd /repo && timeout 300 bash $D/demo.sh); R=$?
python3 - $D/out.json <<PY
import json,sys
b=json.load(open('/opt/vp/BASELINE.json')); o=json.load(open(sys.argv[1]))
base=set(b.get('passed') or b.get('stable') or b); miss=base-set(o['passed'])
print("tests missing:",len(miss),sorted(miss)[:5])
print("RESULT $ID", "OK" if not miss and "$W" not in ("demo-with-rc=0","") and $R==0 else "BAD", "missing=%d"%len(miss), "$W", "without=$R")
PY
rm -rf "$D"
} > $L 2>&1
grep RESULT $L || tail -3 $L
