import json,sys
d=json.load(sys.stdin)
for p in d['parts']:
  for k in p:
    if k not in('lines','functions'): print(k,json.dumps(p[k],indent=1) if isinstance(p[k],(list,dict)) else p[k])
