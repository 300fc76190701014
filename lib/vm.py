"""Judging recorded executions of worlds with spec/VMTrace.tla."""
import json
import vf


def base_ns():
    ns = {}
    for f in ('boom', 'subboom', 'tr', 'ident', 'up', 'nothing', 'zero',
              'cat', 'kwshow'):
        ns[f] = {'t': 'f', 'v': f}
    ns['Boom'] = {'t': 'x', 'v': 'Boom'}
    ns['SubBoom'] = {'t': 'x', 'v': 'SubBoom'}
    ns['Brackets'] = {'t': 'k', 'v': 'Brackets'}
    ns['Angle'] = {'t': 'k', 'v': 'Angle'}
    return ns


def strip(x):
    """remove hints the specification does not look at"""
    if isinstance(x, dict):
        return {k: strip(v) for k, v in x.items()
                if k not in ('st', 'form', 'kind', 'late', 'src', 'kw_', 'incl', 'head', 'how', 'blocks', 'name')}
    if isinstance(x, list):
        return [strip(v) for v in x]
    return x


def judge(ck, cases, mode='c', what='vm', module='VMTrace', executor='vm',
          timeout=20, key=None, batch=4000):
    obs = ck.run_cases(executor, cases, mode=mode, timeout=timeout)
    recs, idx = [], []
    for i, (c, o) in enumerate(zip(cases, obs)):
        if o.get('long'):
            ck.notes['too_long_to_judge'] = \
                ck.notes.get('too_long_to_judge', 0) + 1
            continue
        if 'obs' not in o:
            ck.violate(what + '/no-answer', c, None, o,
                       key=key and key(c, o))
            continue
        ob = o['obs']
        if sum(len(x) for x in ob) > 200000:
            # values doubling again and again: too much for TLC
            ck.notes['too_long_to_judge'] = \
                ck.notes.get('too_long_to_judge', 0) + 1
            continue
        if len(ob) < len(c['ops']):
            ob = ob + ['?'] * (len(c['ops']) - len(ob))
        recs.append({'w': strip(c['w']), 'ops': c['ops'], 'obs': ob})
        idx.append(i)
    cfg = open(vf.SPEC + '/%s.cfg' % module).read()
    for b in range(0, len(recs), batch):
        part = recs[b:b + batch]
        p = vf.ndjson(ck.path('%s-%s-%d.ndjson' % (what, mode, b)), part)
        res = ck.tlc(module, cfg, env={'CASES': p})
        acc, rej, long = set(), {}, set()
        for r in res.records:
            if r['v'] == 'acc':
                acc.add(r['h'])
            elif r['v'] == 'long':
                long.add(r['h'])
            elif r['h'] not in rej or r['l'] < rej[r['h']]['l']:
                rej[r['h']] = r
        for n, rec in enumerate(part, 1):
            ck.validated += 1
            i = idx[b + n - 1]
            if n in rej:
                r = rej[n]
                ck.violate('%s/op-%d' % (what, r['l']),
                           {'src': obs[i].get('src'),
                            'ops': rec['ops'][:r['l']],
                            'ns': rec['w']['ns'],
                            'msg': obs[i].get('msg'), 'w': rec['w'],
                            'seed': cases[i].get('seed')},
                           {'allowed': r['allowed']}, rec['obs'][:r['l']],
                           key=key and key(cases[i], obs[i]))
            elif n in long:
                ck.validated -= 1
                ck.notes['too_long_to_judge'] = \
                    ck.notes.get('too_long_to_judge', 0) + 1
            elif n not in acc:
                raise vf.MachineryError('no verdict for %s case %d: %s'
                                        % (what, i, json.dumps(rec)[:2000]))
            else:
                for s in obs[i].get('src', []):
                    ck.saw(s)
        if len(long) * 50 > len(part) + 50:
            raise vf.MachineryError('%d of %d executions too long to judge'
                                    % (len(long), len(part)))
        ck.log('%s[%s]: %d executions judged, %d machine states'
               % (what, mode, len(part), res.distinct))
    if recs:
        i = idx[len(idx) // 2]
        ck.sample({'src': obs[i].get('src'), 'obs': obs[i]['obs']})
    return obs


def enumerate_replay(ck, family, full, limit, nsdef, mode='c', hist=(1,)):
    """TLC runs every program of the family; the code must answer the same."""
    import vmgen
    cfg = open(vf.SPEC + '/VMEnum.cfg').read()
    cfg = cfg.replace('Family = "control"', 'Family = "%s"' % family)
    cfg = cfg.replace('Full = FALSE', 'Full = %s'
                      % ('TRUE' if full else 'FALSE'))
    res = ck.tlc('VMEnum', cfg)
    recs = res.records
    recs.sort(key=lambda r: json.dumps(r, sort_keys=True))
    total = len(recs)
    if limit and total > limit:
        ck.rng.shuffle(recs)
        recs = recs[:limit]
    ck.notes.setdefault('programs_enumerated', {})[family] = total
    ck.notes.setdefault('programs_replayed', {})[family] = len(recs)
    cases = []
    for r in recs:
        m = {'respond': vmgen.meth([], vmgen.style(r['p']['r'], ck.rng)),
             'meth': vmgen.meth([], vmgen.style(r['p']['m'], ck.rng)),
             'meth2': vmgen.meth([{'n': 't', 'd': []}], [
                 vmgen.T('{'), {'s': 'put', 'e': vmgen.var('t')},
                 vmgen.T('}')])}
        if family == 'control':
            del m['meth'], m['meth2']
        o = {'cls': 1, 'sl': [1], 'filt': 'Filter'}
        cases.append({'w': {'cls': [{'base': 0, 'meths': m, 'attrs': {}}],
                            'objs': [o, o], 'ns': [nsdef]},
                      'ops': [vmgen.render(h) for h in hist],
                      'seed': ck.rng.randrange(10**6)})
    obs = ck.run_cases('vm', cases, mode=mode)
    for r, c, o in zip(recs, cases, obs):
        ck.validated += 1
        if o.get('obs') != r['a']:
            ck.violate('enum-%s' % family,
                       {'src': o.get('src'), 'p': r['p'],
                        'msg': o.get('msg'), 'ns': [nsdef],
                        'ops': c['ops']},
                       r['a'], o.get('obs', o))
        else:
            for s in o['src']:
                ck.saw(s)
    ck.log('enumerated %s: %d programs (%d states), %d replayed'
           % (family, total, res.distinct, len(recs)))
    ck.sample({'src': obs[0].get('src'), 'answer': recs[0]['a']})


def ctrl_ns():
    ns = base_ns()
    ns['p'] = {'t': 's', 'v': '<p>'}
    ns['n'] = {'t': 'i', 'v': 2}
    return ns
