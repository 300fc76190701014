"""C12 compile cache."""
import os, sys
sys.path.insert(0, os.path.join(os.path.dirname(__file__), '..', 'lib'))
import vf, statemachine as sm  # noqa: E401,E402

GLOBS = ['1', 'True', '1.0', '-1', '-2', "'1'", "b'1'", '[1]', '[True]',
         '(1,)', '(True,)', "{'a': 1}", "{'a': True}", '{1}', '0.0', '-0.0',
         '0', 'False', "'True'", '[[1]]', '[(1,)]', "{'a': [1]}",
         "{'a': [True]}", "{'b': 1}", "['a', 1]"]


def main():
    ck = vf.Check('C12')
    rng = ck.rng
    sm.replay(ck, 'compile', 'CompileCacheMC',
              open(os.path.join(vf.SPEC, 'CompileCacheMC.cfg')).read()
              .replace('Depth = 3', 'Depth = %d' % ck.n(3, 5)),
              limit=ck.n(6000, 40000))
    base = dict(op='compile', src='c1', file='', dir='', t=0, cls='', mod='',
                main='', settings='', base='', glob='', pre='none', api='T',
                keep='', use='')
    dom = dict(src=['c2', 'c3', 'c\xe9'], cls=['Na', 'Nab', 'Nabb'],
               mod=['bNc', 'Nc', 'bbNc', 'colorsys'], main=['mm', 'nn'],
               settings=['pc', 'pc2', 'ex', 'none'], base=['b1', 'b2', 'b3'],
               glob=GLOBS, pre=['x1', 'x2', 'f', 'l'], api=['M', 'N', 'P'],
               keep=['y', 'n'], use=['y', 'n'])
    cases = []
    for _ in range(ck.n(1200, 12000)):
        ops = []
        filey = rng.random() < .4
        rel = rng.random() < .6
        n = rng.randint(3, 14)
        reqs = []
        t = [1000, 1000]
        # a few respects vary within one history, so that requests repeat
        fields = rng.sample(sorted(dom), rng.randint(1, 4))
        sub = {f: rng.sample(dom[f], min(len(dom[f]), rng.randint(1, 3)))
               for f in fields}
        old = []
        cur = {}
        wr = 0
        for j in range(n):
            r = rng.random()
            if filey and r < .12:
                ops.append(dict(base, op='cd', dir=rng.choice(['d1', 'd2'])))
                continue
            if filey and r < .35:
                d, f = rng.choice(['d1', 'd2']), rng.choice(['f1', 'f2'])
                past = [x for x in old if x[0] == (d, f)]
                if past and rng.random() < .25:
                    _, c, tt = rng.choice(past)    # put an old version back
                else:
                    wr += 1
                    c = 'w%d' % wr
                    t = [t[0] - 1, t[1] + 1]
                    tt = rng.choice(t)
                    old.append(((d, f), c, tt))
                ops.append(dict(base, op='write', dir=d, file=f, src=c, t=tt))
                continue
            if reqs and rng.random() < .4:
                o = dict(rng.choice(reqs))
            else:
                o = dict(base)
                for f in fields:
                    if rng.random() < .7:
                        o[f] = rng.choice(sub[f])
                if filey and rng.random() < .8:
                    o['src'] = ''
                    o['file'] = rng.choice(['f1', 'f2'])
                    o['dir'] = '' if rel else rng.choice(['d1', 'd2'])
                r = rng.random()
                if r < .12:
                    o['op'] = 'source'
                elif r < .24:
                    o.update(op='inst', cls='', mod='', main='', base='',
                             glob='', pre='none', keep='', use='')
                elif r < .34 and o['base'] == 'b3':
                    o.update(op='subclass', api='T')
                elif o['op'] == 'compile' and o['base'] == 'b3' \
                        and o['api'] != 'T':
                    o['base'] = ''
                reqs.append(o)
            ops.append(o)
        cases.append({'cfg': {'k': 'x'}, 'ops': ops})
    sm.judge(ck, 'compile', 'CompileCacheTrace', cases)
    ck.assumptions += [
        'two versions of a file differ in their modification time',
        'option values are not modified by the caller after the request']
    ck.finish()


vf.main(main)
