"""C17 the command line."""
import os, sys
sys.path.insert(0, os.path.join(os.path.dirname(__file__), '..', 'lib'))
import vf, statemachine as sm  # noqa: E401,E402


def gen(rng):
    """a tree and a history of runs"""
    dirs = [[]]
    fs = []
    if rng.random() < .12:
        # an input directory, and others named alike
        dirs += [[['in']], [['in2']], [['in', 'tmpl']]]
        fs += [{'p': d, 'c': 'dir'} for d in dirs[1:]]
    for _ in range(rng.randint(0, 4)):
        d = rng.choice(dirs) + [list(rng.choice(
            [('in',), ('out',), ('s',), ('outer',), ('a',), ('in2',),
             ('s', 'tmpl'), ('t', 'tmpl', 'd')]))]
        if d not in dirs and len(d) < 4:
            dirs.append(d)
            fs.append({'p': d, 'c': 'dir'})
    exts = [['tmpl']] * 4 + [['txt'], [], ['html'], ['py'], ['x', 'tmpl'],
                             ['html', 'bak'], ['TMPL'],
                             ['tmpl', 'tmpl']]
    files = []
    bad = rng.random() < .45
    for _ in range(rng.randint(1, 7)):
        p = rng.choice(dirs) + [[rng.choice(
            ['a', 'b', 'c', 'a', 'b', '1a', 'a-b'] if bad
            else ['a', 'b', 'c', 's'])] + rng.choice(exts)]
        if p in [e['p'] for e in fs]:
            continue
        c = rng.choice(['t1', 't2', 't1', 't2', 'x', 'at']
                       + (['bad', 'rbad', 'kill', 'bad', 'rbad'] if bad
                          else []))
        if p[-1][-1] in ('html', 'py', 'bak'):
            c = '=old%d' % rng.randint(1, 3)
        fs.append({'p': p, 'c': c})
        files.append(p)
    ops = []
    for _ in range(rng.choice([1, 1, 2, 2, 3, 4])):
        if ops and rng.random() < .4:
            o = dict(rng.choice(ops))
            for k in rng.sample(['nobackup', 'stdout', 'flat', 'recurse'],
                                rng.randint(0, 2)):
                o[k] = not o[k]
            o['parallel'] = rng.choice([1, 1, 2, 4])
            ops.append(o)
            continue
        cmd = rng.choice(['compile', 'fill', 'fill'])

        def dirpath(some):
            d = rng.choice(dirs + some)
            return {'given': True, 'p': d, 'abs': rng.random() < .25}
        none = {'given': False, 'p': [], 'abs': False}
        idir = dirpath([]) if rng.random() < .45 else none
        odir = dirpath([[['out']], [['o'], ['p']], [['out'], ['q']],
                        [['a']]]) \
            if rng.random() < .6 else none
        if [['in2']] in dirs and rng.random() < .4:
            idir = {'given': True, 'p': [['in']], 'abs': rng.random() < .8}
        iext = rng.choice([['tmpl']] * 6 + [['txt'], [], ['x', 'tmpl']])
        recurse = rng.random() < .45
        args = []
        if not (recurse and rng.random() < .6):
            for _ in range(rng.choice([1, 1, 2, 2, 3, 0])):
                x = rng.random()
                ab = rng.random() < (.6 if idir['abs'] else .2)
                inside = [p for p in files + dirs[1:]
                          if p[:len(idir['p'])] == idir['p']
                          and p != idir['p']]
                if ab and rng.random() < .4:
                    inside = files + dirs[1:]
                if x < .12 or not inside:
                    p = [[rng.choice(['zz', 'a', 'b'])]]
                else:
                    p = rng.choice(inside)
                    if not ab:
                        p = p[len(idir['p']):]
                    if x < .5 and iext and p[-1][-len(iext):] == iext:
                        p = p[:-1] + [p[-1][:-len(iext)]]
                args.append({'p': p, 'abs': ab})
        o = dict(op='run', cmd=cmd, idir=idir, odir=odir, iext=iext,
                 oext=rng.choice([['py'], ['py'], ['p2']]) if cmd == 'compile'
                 else rng.choice([['html']] * 3 + [['txt'], ['x', 'y']]),
                 recurse=recurse, flat=rng.random() < .25,
                 nobackup=rng.random() < .3, stdout=rng.random() < .2,
                 parallel=rng.choice([1, 1, 1, 2, 3, 8]),
                 json=rng.choice(['', '', 'J']),
                 pickle=rng.choice(['', '', 'P']), env=rng.random() < .4,
                 settings=rng.choice([''] * 6 + ['at', 'at', 'invalid']),
                 shbang=rng.choice(['', '', '', '#!/opt/py']), encoding='',
                 stdin='', args=args, quiet=rng.random() < .3)
        if rng.random() < .2:
            o['encoding'] = rng.choice(['utf-8', 'latin-1'])
            if cmd == 'fill':
                o['json'] = rng.choice(['U', 'U', 'J'])
        if rng.random() < .08:
            o.update(stdin=rng.choice(['t1', 'x', 'at', 'bad', 'rbad']),
                     args=[], shbang='', stdout=False, recurse=False)
        ops.append(o)
    return {'cfg': {'fs': fs}, 'ops': ops}


def main():
    ck = vf.Check('C17')
    cfg = open(os.path.join(vf.SPEC, 'CliMC.cfg')).read()
    if ck.thorough():
        cfg = cfg.replace('Wide = FALSE', 'Wide = TRUE')
    sm.replay(ck, 'cli', 'CliMC', cfg, limit=ck.n(1500, 12000))
    cases = [gen(ck.rng) for _ in range(ck.n(1500, 15000))]
    sm.judge(ck, 'cli', 'CliTrace', cases, open_ok=True)
    ck.assumptions += [
        'without --flat, what happens when two inputs map to one output (or '
        'an output is also an input) is not specified',
        'after a failing input the others are either complete or not begun']
    ck.finish()


vf.main(main)
