import json,sys
d=json.load(open('/verif/evidence/replay/C17.json'))
v=d.get('violations',d) if isinstance(d,dict) else d
v=sorted(v,key=lambda x:len(json.dumps(x['case'])))
print(len(v))
for x in v[:int(sys.argv[1])]:
    print(x['clause']); print([('/'.join('.'.join(n) for n in e['p']),e['c']) for e in x['case']['cfg']['fs']])
    for o in x['case']['ops']:
        print({k:w for k,w in o.items() if w not in('',False,[]) and k!='op'})
    e=x['expected']; e=e['allowed'] if isinstance(e,dict) else [e[-1]]
    ob=x['observed'][-1] if isinstance(x['observed'],list) else x['observed']
    print('OBS',ob if 'tree' not in ob else None)
    for a in e[:3]:
        print('  ',{k:(a[k],ob[k]) for k in a if k!='tree' and a[k]!=ob[k]})
        print('   tree',{k:(a['tree'].get(k),ob['tree'].get(k)) for k in set(a['tree'])|set(ob['tree']) if a['tree'].get(k)!=ob['tree'].get(k)})
