#!/bin/bash
# prun.sh BIN FAMILY [args]: developer aid, all shards on 8 cores, summary and distinct violation keys
[ -n "$VARIANT" ] || ulimit -v 6000000; B=/verif/build/rel-mc/$1; [ -n "$VARIANT" ] && B=/verif/build/$VARIANT-mc/$1; F=$2; shift 2; rm -f /tmp/pr.$F.*
for i in 0 1 2 3 4 5 6 7; do (exec 2>/dev/null; timeout 900 $B --family $F --shard $i/8 --out /tmp/pr.$F.$i.json --cell /tmp/pr.$F.$i.cell "$@" > /tmp/pr.$F.$i 2>&1; r=$?; [ $r = 0 ] || { echo "shard $i exit $r"; grep -v "^WARNING" /tmp/pr.$F.$i | tail -c 600; dd if=/tmp/pr.$F.$i.cell bs=1 skip=16 count=400 2>/dev/null | tr -d '\0'; }) & done; wait
python3 - $F <<'P'
import json,sys,glob,collections
t=collections.Counter(); c=collections.Counter(); v=[]; cap=False; notes=set()
for f in glob.glob('/tmp/pr.%s.?.json'%sys.argv[1]):
    d=json.load(open(f))
    for k in 'executions states transitions evaluations traces skipped dedup'.split(): t[k]+=d[k]
    c.update(d['counters']); v+=d['violations']; cap|=d['capped']; notes|=set(d['notes'])
print(sys.argv[1],dict(t),'CAPPED' if cap else ''); print('  ',dict(c),notes); print('  violations',len(v))
json.dump(v,open('/tmp/pr.%s.viol'%sys.argv[1],'w'))
for x in v[:6]: print('   *',x['key'][:300].replace('\n',' '))
P
