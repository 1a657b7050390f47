import json,sys
d=json.load(open(sys.argv[1]));print(d['violation'])
for k in ('scenario','original_scenario'):
    s=d[k];print({k:v for k,v in s.items() if k!='cfg'}); print({k:v for k,v in s.get('cfg',{}).items() if k!='mat'})
