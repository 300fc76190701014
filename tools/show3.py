import json,sys
d=json.load(open('/verif/evidence/replay/%s.json'%sys.argv[1])); v=d if isinstance(d,list) else d['violations']
v.sort(key=lambda x:len(str(x.get('observed'))))
print(len(v))
for x in v[:int(sys.argv[2])]:
    o=x['observed']
    print(x['clause'], {k:o.get(k) for k in ('src','want','got','exc','compile') if o.get(k) is not None} if isinstance(o,dict) and 'src' in o else o, x['case'].get('v',''))
