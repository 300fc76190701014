"""Shows the rejected cases of the last run: tools/show.py C04 [n]"""
import json, sys
import os
P = '/verif/evidence/replay/%s.json' % sys.argv[1]
if not os.path.exists(P): sys.exit()
VS = json.load(open(P))
print(len(VS), 'violations')
VS.sort(key=lambda v: len(json.dumps(v)))
for v in VS[:int((sys.argv[2:] or [3])[0])]:
    c = v['case']
    print('=' * 70, v['clause'], 'seed', c.get('seed') if isinstance(c, dict) else '')
    if isinstance(c, dict) and c.get('src') is not None:
        for s in c['src']:
            print(s); print('-' * 30)
        print({k: x['v'] for n in c.get('ns', []) for k, x in n.items() if k in 'xyz'}, c.get('ops'))
        if c.get('msg'): print(c['msg'][-500:])
    else:
        print(json.dumps(c)[:3000])
    print('EXP', json.dumps(v['expected'])[:1500]); print('OBS', json.dumps(v['observed'])[:1500])
