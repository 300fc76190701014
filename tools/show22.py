"""C22: the rejected cases of the last run, in short."""
import json, sys
VS = json.load(open('/verif/evidence/replay/C22.json'))
print(len(VS))
VS.sort(key=lambda v: len(json.dumps(v)))
def pr(p): return ' '.join(q['k'] + str(q['n']) + ('(' + pr(q['b']) + ')' if q['b'] else '') for q in p)
def ev(e): return '%s%d:%s%s' % (e['h'], e['i'], e['n'], ('%s%s' % (e['s'], e['raw'])) if 's' in e else '')
for v in VS[:int(sys.argv[1])]:
    c = v['case']; g = c['cfg']
    print('--', pr(c['ops'][-1]['prog']), {k: x for k, x in g.items() if x})
    e, o = v['expected'], v['observed']
    o = o[-1] if isinstance(o, list) else o
    e = e[-1] if isinstance(e, list) and e else e
    if isinstance(e, dict) and 'allowed' in e: e = e['allowed'][-1]
    if not isinstance(e, dict): print(' EXP', str(e)[:300]); print(' OBS', {k: (x if k != 'log' else ' '.join(map(ev, x))) for k, x in o.items()}); continue
    if isinstance(e, dict) and isinstance(o, dict) and 'log' in o:
        le, lo = list(map(ev, e['log'])), list(map(ev, o['log']))
        i = 0
        while i < min(len(le), len(lo)) and le[i] == lo[i]: i += 1
        print('  EXP', e['res'], e['used'], le[i:i+3]); print('  OBS', o['res'], o['used'], lo[i:i+3])
    else: print(o)
