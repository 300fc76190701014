"""The two conformance directions for specifications given as
(InitSt, Apply): replay of TLC's behaviours, and judging recorded ones."""
import json
import vf


def replay(ck, executor, module, cfg, mode='c', limit=None, what='replay',
           tlc_kw=None, key=None):
    """TLC enumerates behaviours; the real code must give the same answers."""
    res = ck.tlc(module, cfg, **(tlc_kw or {}))
    beh = res.records
    if limit and len(beh) > limit:
        ck.rng.shuffle(beh)
        ck.notes.setdefault('behaviours_sampled', {})[module] = \
            [limit, len(beh)]
        beh = beh[:limit]
    ck.log('%s: %d states, %d behaviours to replay'
           % (module, res.distinct, len(beh)))
    obs = ck.run_cases(executor, beh, mode=mode)
    for b, o in zip(beh, obs):
        ck.validated += 1
        if not isinstance(o, dict) or norm(o.get('obs')) != norm(b['obs']):
            i = first_diff(b['obs'], o.get('obs') or [])
            ck.violate('%s/step-%s' % (what, b['ops'][min(i, len(b['ops']) - 1)
                                                      ].get('op')),
                       {'cfg': b['cfg'], 'ops': b['ops'][:i + 1]},
                       b['obs'][:i + 1],
                       o.get('obs', o) if not o.get('obs')
                       else o['obs'][:i + 1],
                       key=key(b, o, i) if key else None)
    if beh:
        ck.sample(beh[len(beh) // 2])
    return res


def norm(x):
    """TLC writes an empty sequence and an empty record alike"""
    if isinstance(x, list):
        return [norm(y) for y in x]
    if isinstance(x, dict):
        return {k: norm(y) for k, y in x.items()} if x else []
    return x


def first_diff(a, b):
    for i, (x, y) in enumerate(zip(a, b)):
        if x != y:
            return i
    return min(len(a), len(b))


def judge(ck, executor, module, cases, mode='c', cfg='INIT Init\nNEXT Next\n',
          what='trace', timeout=20, tlc_kw=None, key=None, open_ok=False):
    """Run the cases in the real code, then let TLC judge the recordings."""
    obs = ck.run_cases(executor, cases, mode=mode, timeout=timeout)
    recs = []
    idx = []
    for i, (c, o) in enumerate(zip(cases, obs)):
        if 'obs' not in o:
            ck.violate(what + '/no-answer', c, None, o,
                       key=key(c, o, None) if key else None)
            continue
        recs.append({'cfg': c['cfg'], 'ops': c['ops'][:len(o['obs'])],
                     'obs': o['obs']})
        idx.append(i)
    if not recs:
        return
    p = vf.ndjson(ck.path('%s-%s.ndjson' % (module, mode)), recs)
    res = ck.tlc(module, cfg, env={'CASES': p}, **(tlc_kw or {}))
    acc, rej, opened = set(), {}, 0
    for r in res.records:
        if r['v'] == 'acc':
            acc.add(r['h'])
        else:
            rej[r['h']] = r
    for n, rec in enumerate(recs, 1):
        if not rec['ops']:
            continue
        ck.validated += 1
        if n not in acc:
            r = rej.get(n)
            if r is None:
                raise vf.MachineryError('no verdict for trace %d' % n)
            ll = r['l']
            if open_ok and not r['allowed']:    # left open from there on
                opened += 1
                continue
            ck.violate('%s/step-%s' % (what, rec['ops'][ll - 1].get('op')),
                       {'cfg': rec['cfg'], 'ops': rec['ops'][:ll],
                        'meta': cases[idx[n - 1]].get('meta')},
                       {'allowed': r['allowed']}, rec['obs'][:ll],
                       key=key(rec, r, ll) if key else None)
    ck.sample({k: (v if k != 'ops' else v[:6]) for k, v in
               recs[len(recs) // 2].items()})
    ck.log('%s: %d traces judged, %d of them up to an open step (%d states)'
           % (module, len(recs), opened, res.distinct))
    return res
