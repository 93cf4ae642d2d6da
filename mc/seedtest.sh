#!/bin/bash
# Developer tool: seedtest.sh ID [CHECK...] - validates planted bug /verif/seeded/ID in private copies bind-mounted over /repo and /verif.
# Prints: patch applies, builds, stable tests pass, demo fails with / passes without, and what each check says.
ID=$1; shift; CHECKS=$*
P=$(python3 -c "import json;print(json.load(open('/verif/seeded/$ID/meta.json'))['property'])"); [ -n "$CHECKS" ] || CHECKS=$P
W=/tmp/seed.$ID; rm -rf "$W"; mkdir -p $W; cp -a /repo $W/repo; cp -a /verif $W/verif; cp -a /verif/seeded/$ID $W/bug
unshare -Urm bash -c "
mount --bind $W/repo /repo; mount --bind $W/verif /verif
cd /repo && git checkout -q -- . && git apply $W/bug/patch.diff || { echo '$ID NOAPPLY'; exit; }
bash /opt/vp/build.sh > $W/build1.log 2>&1 || echo '$ID NOBUILD'
bash /opt/vp/test.sh $W/out.json > $W/test.log 2>&1
python3 - <<PY
import json
b=set(json.load(open('/opt/vp/BASELINE.json'))['stable']);r=json.load(open('$W/out.json'))
def nm(x): return x if isinstance(x,str) else x.get('name',str(x))
p=set(nm(x) for x in r['passed']);print('$ID tests', 'ok' if b<=p else 'FAILED %d: %s'%(len(b-p),sorted(b-p)[:4]))
PY
bash $W/bug/demo.sh > $W/demo1.log 2>&1; echo \"$ID demo with bug: rc=\$?\"; grep FAIL $W/demo1.log | head -4
for c in $CHECKS; do cd /verif; timeout 900 python3 check.py \$c --tier quick > $W/check.\$c.log 2>&1; echo \"$ID check \$c rc=\$? \$(grep -m1 VIOLATION $W/check.\$c.log)\"; grep -A6 -m1 VIOLATION $W/check.\$c.log | tail -6 | cut -c1-300; done
cd /repo && git checkout -q -- . && bash /opt/vp/build.sh > $W/build.log 2>&1; bash $W/bug/demo.sh > $W/demo0.log 2>&1; echo \"$ID demo unchanged: rc=\$?\"; grep FAIL $W/demo0.log | head -4
" 2>&1
rm -rf "$W"
