"""C05 block structure: which templates compile, and how others are refused."""
import os, sys
sys.path.insert(0, os.path.join(os.path.dirname(__file__), '..', 'lib'))
import vf, statemachine as sm  # noqa: E401,E402

CLOSE = ['if', 'unless', 'for', 'while', 'repeat', 'def', 'block', 'closure',
         'capture', 'filter', 'cache', 'call', 'try']
NAMES = CLOSE + ['else', 'elif', 'except', 'finally', 'end', 'set', 'echo',
                 'raw', 'break', 'arg', 'pass']


def enum(ck, alphabet, depth, layout, limit, dis=(), en=()):
    def tup(x):
        return '<<' + ', '.join('"%s"' % i for i in x) + '>>'
    mod = 'EXTENDS BlocksEnum\nDisV == %s\nEnV == %s\n' % (tup(dis), tup(en))
    name = 'BlocksEnumRun'
    cfg = ('CONSTANTS Depth = %d Alphabet = "%s" Layout = "%s" Dis <- DisV '
           'En <- EnV\nINIT Init\nNEXT Next\nINVARIANTS Sane Balanced\n'
           % (depth, alphabet, layout))
    res = ck.tlc(name, cfg, extra_modules={
        name: '---- MODULE %s ----\n%s====\n' % (name, mod)})
    recs = res.records
    tot = len(recs)
    if tot > limit:
        ck.rng.shuffle(recs)
        good = [r for r in recs if 'ok' in r['allowed']][:limit // 2]
        recs = good + [r for r in recs
                       if 'ok' not in r['allowed']][:limit - len(good)]
    eols = ['\n', '\r\n', '\r']
    for r in recs:
        r['cfg']['eol'] = '\n' if ck.rng.random() < .6 else ck.rng.choice(eols)
        r['cfg']['noeol'] = ck.rng.random() < .25
    obs = ck.run_cases('blocks', recs)
    acc = 0
    for r, o in zip(recs, obs):
        ck.validated += 1
        if not isinstance(o, dict) or o.get('obs') not in r['allowed']:
            ck.violate('structure/%s' % alphabet,
                       {'cfg': r['cfg'], 'tags': r['tags']}, r['allowed'], o,
                       key='clause-after-placeholder'
                       if o.get('obs') in r['known'] else None)
        acc += 'ok' in r['allowed']
    ck.log('%s/%s depth %d: %d sequences, %d run, %d well formed'
           % (alphabet, layout, depth, tot, len(recs), acc))
    if recs:
        ck.sample(recs[0])


def body(rng, depth, tags, loops):
    for _ in range(rng.choice([1, 1, 2, 3])):
        r = rng.random()
        if depth <= 0 or r < .35:
            x = rng.random()
            if x < .6:
                tags.append(('text', ''))
            elif x < .7 and loops:
                tags.append(('brk', rng.choice(['break', 'continue'])))
            elif x < .75:
                tags.append(('cmt', ''))
                tags.append(('text', ''))
            else:
                tags.append(('stmt', rng.choice(['set', 'pass', 'silent',
                                                 'assert'])))
                if rng.random() < .2:
                    tags += [('stmt', 'echo'), ('text', '')]
        elif r < .45:
            k = rng.choice(['if', 'unless', 'for', 'try', 'repeat', 'while'])
            tags.append(('short', k))
            if k in ('if', 'unless'):
                for _ in range(rng.choice([0, 0, 1, 2])):
                    tags.append(('sclause', 'elif'))
                if rng.random() < .5:
                    tags.append(('sclause', 'else'))
            elif k == 'try':
                x = rng.random()
                if x < .6:
                    tags.append(('sclause', 'except'))
                    if rng.random() < .3:
                        tags.append(('sclause', 'else'))
                if x > .4:
                    tags.append(('sclause', 'finally'))
            tags.append(('text', ''))
        elif r < .5:
            tags.append(('raw', ''))
            for _ in range(rng.randint(0, 3)):
                tags.append(rng.choice([('text', ''), ('open', 'if'),
                                        ('end', 'for'), ('clause', 'else')]))
            tags.append(('end', 'raw'))
        else:
            k = rng.choice(CLOSE)
            tags.append(('open', k))
            lp = loops if k not in ('def', 'block', 'closure') else False
            body(rng, depth - 1, tags,
                 True if k in ('for', 'while', 'repeat') else lp)
            if k in ('def', 'closure', 'block'):
                tags.append(('text', ''))
            elif k in ('if', 'unless'):
                for _ in range(rng.choice([0, 0, 1, 2])):
                    tags.append(('clause', 'elif'))
                    body(rng, depth - 1, tags, lp)
                if rng.random() < .4:
                    tags.append(('clause', 'else'))
                    body(rng, depth - 1, tags, lp)
            elif k in ('for', 'while', 'repeat'):
                if rng.random() < .2:
                    tags.append(('clause', 'else'))
                    body(rng, depth - 1, tags, lp)
            elif k == 'try':
                x = rng.random()
                if x < .7:
                    for _ in range(rng.choice([1, 1, 2])):
                        tags.append(('clause', 'except'))
                        body(rng, depth - 1, tags, lp)
                    if rng.random() < .3:
                        tags.append(('clause', 'else'))
                        body(rng, depth - 1, tags, lp)
                if x > .5:
                    tags.append(('clause', 'finally'))
                    body(rng, depth - 1, tags, lp)
            tags.append(('end', k))
    return tags


def mutate(rng, tags):
    tags = [t for t in tags if t != ('stmt', 'echo')]
    x = rng.random()
    i = rng.randrange(len(tags))
    j = rng.randrange(len(tags))
    if x < .25:
        del tags[i]
    elif x < .45:
        tags[i], tags[j] = tags[j], tags[i]
    elif x < .6:
        tags.insert(i, tags[j])
    elif x < .75:
        tags.insert(i, rng.choice(
            [('end', rng.choice(CLOSE + ['raw', 'foo', '', 'iff', 'elsewhere',
                                         'repeated', 'defs'])),
             ('clause', rng.choice(['else', 'elif', 'except', 'finally',
                                    'bexcept'])),
             ('sclause', rng.choice(['else', 'elif', 'except', 'finally'])),
             ('brk', 'break'), ('open', rng.choice(CLOSE)), ('arg', ''),
             ('raw', ''), ('shopen', rng.choice(CLOSE)),
             ('shend', rng.choice(CLOSE))]))
    elif x < .85:
        t, k = tags[i]
        if t in ('open', 'end'):
            tags[i] = (t, rng.choice(CLOSE))
    else:
        tags = tags[:max(1, i)]
    return tags or [('text', '')]


def long_cases(ck, n):
    rng = ck.rng
    cases = []
    for _ in range(n):
        tags = body(rng, rng.choice([1, 2, 2, 3]), [], False)
        if rng.random() < .6:
            tags = mutate(rng, tags)
            if rng.random() < .3:
                tags = mutate(rng, tags)
        if len(tags) > 60:
            tags = tags[:60]
        depth = mx = 0
        for t in tags:
            depth += (t[0] == 'open') - (t[0] == 'end')
            mx = max(mx, depth)
        if mx > 14:
            continue
        layout = 'lines' if rng.random() < .8 else 'inline'
        if layout == 'inline':
            tags = [t for t in tags if t[0] not in
                    ('short', 'sclause', 'shopen', 'shend')] \
                or [('text', '')]
        cfg = {'layout': layout, 'dis': [], 'en': [], 'lax': False,
               'eol': rng.choice(['\n', '\n', '\r\n', '\r']),
               'noeol': rng.random() < .2}
        if layout == 'lines' and rng.random() < .2:
            cfg['tok'] = rng.choice([{'d': '%', 'e': '%', 'c': '%%'},
                                     {'d': '<%%', 'e': '%%>', 'c': '##'},
                                     {'d': '@@'}, {'d': '#', 'e': '#;'}])
        x = rng.random()
        if x < .1:
            cfg['dis'] = rng.sample(NAMES, rng.randint(1, 3))
        elif x < .15:
            cfg['en'] = [m for m in NAMES if rng.random() < .9]
        out = []
        for t, k in tags:
            o = {'t': t, 'k': k}
            if layout == 'lines' and t not in ('text',):
                o['ind'] = rng.choice(['', '', '', '  ', '\t']) \
                    if t != 'sclause' else ''
                o['sp'] = ''
                if t in ('open', 'clause', 'end', 'stmt') and k not in (
                        'def', 'block', 'filter', 'raw') and rng.random() < .15:
                    o['trail'] = rng.choice([' ', '  ', ' ## c' if 'tok' not in cfg else ' '])
            out.append(o)
        cases.append({'cfg': cfg, 'ops': [{'op': 'compile', 'tags': out}]})
    return cases


SNIPS = ['#if $a', '#for $i in $b', '#end if', '#end for', '#else', '$a',
         '${a}', '${a.b(1)[2]}', '$a.b($c, [1, "x"])', '\n', '\n', '\r\n',
         ' ', '#set $x = 1', '#def foo(a=1, *b)', '#end def', '#call f',
         '#arg z', '#end call', '#capture q', '#end capture', '#cache',
         '#cache timer=$x, id="a"', '#end cache', '#filter None',
         '#end filter', '## c', '#* m *#', '#* open', '<%= a %>', '<% x=1 %>', '<% end %>',
         '<% if 1: %>', '<% %>', '$*.*a', '$*1.2s*a', '#cache test=$a',
         '#cache 1', '#cache timer', '#cache timer=""',
         '<%', '#raw', '#end raw', '#include "x"', '#include source=$x',
         '#import os', '#from os import path', '#silent $a', '#echo 1 + 2',
         '#attr $x = 3', '#attr $y = $a', '#slurp', '#extends A', '#implements foo',
         '#super()', '#closure c(x)', '#end closure', '#block b',
         '#end block', '#try', '#except', '#finally', '#end try',
         '#while $x', '#end while', '#repeat 3', '#end repeat',
         '#unless $x', '#end unless', '#return 1', '#break', '#continue',
         '#stop', '#pass', '#raise ValueError("x")', '#assert 1',
         '#del $x', '#errorCatcher Echo', '#compiler reset',
         '#shBang #!x', '#if 1: a', '#if 1 then 2 else 3',
         '#@foo', '#yield 1', '#transform None', '$*a', '$*5m*a', '$!a',
         '${a, x=1}', '$(a)', '$[a]', "c'x$a'", '${c"x"}', '"""', "'", '"',
         '(', ')', '[', ']', '{', '}', '\\', '\\$a', '\\#if', '#', '$', '##',
         ':', '#breakpoint', '#end', '#silent',
         '#echo', '\x0b', '\x0c', '\x85', '\u2028', '\u00e9', '\x00', '\t']


def fuzz(ck, n):
    """Arbitrary texts and truncations: compile or a reportable parse error
    on a line of the template; nothing else."""
    rng = ck.rng
    cases = []
    for _ in range(n):
        parts = [rng.choice(SNIPS) for _ in range(rng.randint(1, 8))]
        s = ''
        for p in parts:
            s += p
            x = rng.random()
            if x < .5:
                s += rng.choice(['\n', '\n', '\r\n', '\r'])
            elif x < .6:
                s += '#'
        x = rng.random()
        if x < .4 and s:
            s = s[:rng.randint(1, len(s))]
        elif x < .6 and s:
            i = rng.randrange(len(s))
            s = s[:i] + s[i + rng.randint(1, 3):]
        if '#breakpoint' in s or 'import' in s and '\x00' in s:
            pass
        cases.append({'src': s, 'meta': s, 'cfg': {'n': nlines(s)},
                      'ops': [{'op': 'compile-any'}]})
    for s in SNIPS:          # every prefix of every construct, to the end
        for i in range(1, len(s) + 1):
            for pre, post in (('', ''), ('a\r\n', ''), ('', '\n'),
                              ('', '\r\n'), ('#if 1\n', ''),
                              ('#if 1: ', '')):
                t = pre + s[:i] + post
                cases.append({'src': t, 'meta': t, 'cfg': {'n': nlines(t)},
                              'ops': [{'op': 'compile-any'}]})
    return cases


def nlines(s):
    import re
    return max(1, len(re.split(r'\r\n|\r|\n', s)))


def main():
    ck = vf.Check('C05')
    T = ck.thorough()
    lim = ck.n(7000, 60000)
    enum(ck, 'core', ck.n(5, 6), 'lines', lim)
    enum(ck, 'try', ck.n(5, 6), 'lines', lim)
    enum(ck, 'regions', ck.n(4, 5), 'lines', lim)
    enum(ck, 'funcs', ck.n(4, 5), 'lines', lim)
    enum(ck, 'short', ck.n(4, 5), 'lines', lim)
    enum(ck, 'nest', ck.n(4, 4), 'lines', lim)
    enum(ck, 'core', ck.n(4, 5), 'inline', ck.n(3000, 60000))
    enum(ck, 'all', 3, 'lines', ck.n(7000, 200000))
    enum(ck, 'core', 4, 'lines', ck.n(1500, 20000), dis=['else'])
    enum(ck, 'core', 4, 'lines', ck.n(1500, 20000),
         en=['if', 'end', 'elif'])
    enum(ck, 'misc', 2, 'lines', 1000)
    enum(ck, 'misc', 2, 'lines', 1000, dis=['errorCatcher', 'shBang', 'echo'])
    enum(ck, 'misc', 2, 'lines', 1000, en=['errorCatcher', 'attr', 'set'])
    sm.judge(ck, 'blocks', 'BlocksTrace', long_cases(ck, ck.n(6000, 60000)),
             what='long')
    sm.judge(ck, 'blocks', 'BlocksTrace', fuzz(ck, ck.n(6000, 100000)),
             what='robust')
    ck.assumptions += [
        'a #raw never closed may be accepted (it runs to the end) or refused',
        'a single-line clause right after a closed multi-line block, and an '
        '#arg deeper inside a call, may be accepted or refused']
    ck.finish()


vf.main(main)
