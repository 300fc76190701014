"""Histories on template objects with cache regions."""
import clock
clock.install()
import logging  # noqa: E402,F401
from Cheetah.Template import Template  # noqa: E402
from Cheetah.CacheStore import MemoryCacheStore  # noqa: E402


class Boom(Exception):
    pass


# the vary-by values of a history, in the order in which they turn up
VARY = ['a', 'a ', ' a', 'A', 'a\n', 'aa', 'b' * 300 + 'a', 'b' * 300, '\u00e9',
        'e', '%s', 'a:b', '', '0', 'None', 'a,b', '\u0416', '(1,)']


class V:
    def __init__(self, case):
        self.off = len(str(case['cfg'])) + 7 * len(case['ops'])
        self.seen = []
        # refreshing '' means refreshing the whole region
        self.vals = [v for v in VARY if v
                     or not any(o.get('item') for o in case['ops'])]

    def __call__(self, v):
        if v not in self.seen:
            self.seen.append(v)
        return self.vals[(self.off + self.seen.index(v)) % len(self.vals)]


UNIT = {'': 'm'}


def num(n):
    return ('%d' % (n // 10)) if n % 10 == 0 else ('%d.%d' % (n // 10, n % 10))


def src(nodes, style, vv=repr):
    out = []
    for n in nodes:
        k = n['k']
        if k == 'text':
            out.append(n['s'])
        elif k == 'ev':
            out.append('${ev("%s")}' % n['name'])
        elif k == 'loop':
            out.append('#for $v in [%s]#' % ', '.join(map(vv, n['vals']))
                       + src(n['body'], style, vv) + '#end for#')
        elif k == 'try':
            out.append('#try#' + src(n['body'], style, vv)
                       + '#except $Boom#!#end try#')
        elif k == 'cache':
            form = n['form']
            body = src(n['body'], style, vv)
            if form == 'ph':
                iv = '*%s%s*' % (num(n['num']), n['unit']) if n['num'] else '*'
                assert len(n['body']) == 1
                out.append('$%s{ev("%s")}' % (iv, n['body'][0]['name']))
                continue
            args = []
            if not n['auto']:
                args.append('id="%s"' % n['r'])
            if n['vary']:
                args.append('varyBy=$v')
            if n['test']:
                args.append('test=$tst')
            if n['num']:
                q = n.get('q', "'")
                args.append('timer=%s%s%s%s' % (q, num(n['num']), n['unit'],
                                                q))
            a = ' ' + ', '.join(args) if args else ''
            if form == 'line':
                out.append('\n#cache%s\n%s#slurp\n#end cache\n' % (a, body))
            else:
                out.append('#cache%s#' % a + body + '#end cache#')
    return ''.join(out)


def wrap(cfg, vv):
    s = src(cfg['tmpl'], None, vv)
    if cfg.get('indef'):
        return '#def meth(v, tst)\n%s#slurp\n#end def\n$meth($v, $tst)' % s
    return s


_classes = {}


def run(case):
    cfg = case['cfg']
    clock.set(1000)
    vv = V(case)
    text = wrap(cfg, lambda v: repr(vv(v)))
    cls = _classes.get(text)
    if cls is None:
        cls = _classes[text] = Template.compile(text, useCache=False)
    cnt = [0]
    fail = []

    def ev(name):
        cnt[0] += 1
        if name in fail:
            raise Boom(name)
        return '%s%d;' % (name, cnt[0])
    objs = {}
    if cfg.get('store') == 'shared':
        cls = type('Sub', (cls,), {'_CHEETAH_cacheStore': MemoryCacheStore()})
    now = 0
    obs = []
    for o in case['ops']:
        op = o['op']
        try:
            if op == 'tick':
                now += o['t']
                clock.set(1000 + now / 1000.0)
                r = 'ok'
            else:
                i = o['i']
                if i not in objs:
                    ns = {'ev': ev, 'Boom': Boom}
                    objs[i] = (cls(searchList=[ns]), ns)
                t, ns = objs[i]
                if op == 'render':
                    fail[:] = o['fail']
                    ns['v'] = vv(o['v'])
                    ns['tst'] = o['tst']
                    r = 'out:' + t.respond().replace('\n', '')
                else:
                    if o['r'] and o['item']:
                        t.refreshCache(o['r'], vv(o['item'])
                                       if o['item'] in ('p', 'q', 'é') else o['item'])
                    elif o['r']:
                        t.refreshCache(o['r'])
                    else:
                        t.refreshCache()
                    r = 'ok'
        except Exception as e:
            r = 'exc:' + type(e).__name__
        obs.append(r)
    return {'obs': obs, 'src': text}
