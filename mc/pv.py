import json,sys
seen=set()
for v in json.load(open('/tmp/pr.%s.viol'%sys.argv[1])):
    if v['key'] in seen: continue
    seen.add(v['key']); print('--',v['key']); print(v['text'][:int(sys.argv[2]) if len(sys.argv)>2 else 300])
