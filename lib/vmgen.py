"""Seeded generator of worlds (programs, objects, histories)."""
from vm import base_ns

WORDS = ['a', 'b', 'cc', 'D1', 'e.f', 'g h', ', ', '(', ')', '!', '"', "'q'",
         'é', '<x>', '&', '%s', '{y}', '\\n', 'z:', '[', ']', '=', '*', '@']


def I(n): return {'t': 'i', 'v': n}  # noqa: E704,E743
def S(s): return {'t': 's', 'v': s}  # noqa: E704
def B(b): return {'t': 'b', 'v': b}  # noqa: E704
N = {'t': 'n', 'v': 0}
def L(*x): return {'t': 'l', 'v': list(x)}  # noqa: E704
def c(v): return {'e': 'c', 'v': v}  # noqa: E704
def var(x): return {'e': 'v', 'x': x}  # noqa: E704
def T(s): return {'s': 'text', 'v': s}  # noqa: E704


class Gen:
    """feat: weights of statement kinds; a weight 0 or a missing key switches
    the kind off."""

    def __init__(self, rng, feat, depth=3, names=('x', 'y', 'z'),
                 meths=(), maxlen=4):
        self.r = rng
        self.feat = {k: w for k, w in feat.items() if w}
        self.depth = depth
        self.names = list(names)
        self.inames = ['n', 'k']
        self.meths = dict(meths)    # name -> args spec
        self.maxlen = maxlen
        self.tag = 0
        self.used = []
        self.blocks = []            # names of blocks still to be placed
        self.loopvars = 0

    # ------------------------------------------------------- expressions
    def expr(self, d=2, ints=False):
        r = self.r
        x = r.random()
        if d == 0 or x < .3:
            return self.atom(ints)
        if ints and x < .4:
            return {'e': 'bin', 'op': r.choice(['+', '-']),
                    'a': self.expr(d - 1, True), 'b': self.expr(d - 1, True)}
        if ints and not .62 <= x < .7:
            return self.atom(ints)
        if x < .42:
            return {'e': 'bin', 'op': r.choice(['+', '-', '==', '!=', '<',
                                                '>']),
                    'a': self.expr(d - 1, True), 'b': self.expr(d - 1, True)}
        if x < .5:
            return {'e': r.choice(['and', 'or']), 'a': self.expr(d - 1),
                    'b': self.expr(d - 1)}
        if x < .56:
            return {'e': 'not', 'a': self.expr(d - 1)}
        if x < .62:
            return {'e': 'bin', 'op': 'in', 'a': self.expr(d - 1),
                    'b': self.listexpr(d - 1)}
        if x < .7:
            self.tag += 1
            return {'e': 'call', 'f': 'tr',
                    'args': [c(S('t%d' % self.tag)), self.expr(d - 1, ints)]}
        if x < .715 and self.feat.get('fail'):
            return {'e': 'call', 'f': r.choice(['boom', 'subboom']),
                    'args': []}
        if x < .82:
            return {'e': 'idx', 'a': var('lst'),
                    'i': c(I(r.choice([0, 1, 2, 0, 1, 2, 5])))}
        if x < .88:
            return {'e': 'call', 'f': r.choice(['ident', 'up']),
                    'args': [self.expr(d - 1)]}
        return self.atom(ints)

    def listexpr(self, d=1):
        r = self.r
        if r.random() < .3:
            return var('lst')
        return {'e': 'list', 'l': [self.atom() for _ in
                                   range(r.choice([0, 1, 2, 2, 3]))]}

    def atom(self, ints=False):
        r = self.r
        x = r.random()
        if ints and x < .5:
            return var(r.choice(self.inames))
        if not ints and x < .47:
            return var(r.choice(self.names + self.inames[:1]))
        if x < .485 and self.feat.get('missing'):
            return var('nosuch')
        if ints or x < .7:
            return c(I(r.choice([0, 1, 2, 3, 10, -1])))
        if x < .85:
            return c(S(r.choice(['', 'a', '<b>', 'w w', ' p '])))
        if x < .9:
            return c(N)
        return c(B(r.random() < .5))

    def cond(self):
        r = self.r
        x = r.random()
        if x < .3:
            return var(r.choice(self.names))
        if x < .6:
            return {'e': 'bin', 'op': r.choice(['==', '<', '>', '!=']),
                    'a': var(r.choice(self.inames)),
                    'b': c(I(r.choice([0, 1, 2])))}
        return self.expr(2)

    # --------------------------------------------------------- statements
    def seq(self, d, ctx, lo=1, hi=None):
        hi = hi or self.maxlen
        return [self.stmt(d, ctx) for _ in range(self.r.randint(lo, hi))]

    def sbody(self):
        """body of a single-line short form"""
        b = [self.text()]
        for _ in range(self.r.randint(0, 2)):
            b.append(self.r.choice([self.text, lambda: self.g_put(0, ())])())
        return b + [T('\n')]

    def text(self):
        return T(''.join(self.r.choice(WORDS)
                         for _ in range(self.r.randint(1, 2))).strip()
                 or 'w')

    def stmt(self, d, ctx):
        """ctx: set of 'loop' (break/continue allowed), 'inline' (short form
        bodies: no nested block forms)"""
        r = self.r
        kinds = list(self.feat.items())
        simple = ('text', 'put', 'echo', 'silent', 'tern', 'set', 'gset',
                  'aug', 'del', 'pass', 'break', 'continue', 'stop', 'return',
                  'raise', 'assert', 'putm', 'setm', 'silentm', 'upm',
                  'super', 'inc', 'block', 'ec')
        if d <= 0:
            kinds = [(k, w) for k, w in kinds if k in simple]
        kinds = [(k, w) for k, w in kinds
                 if k not in ('fail', 'missing', 'short', 'elses', 'sil')]
        if 'loop' not in ctx:
            kinds = [(k, w) for k, w in kinds
                     if k not in ('break', 'continue')]
        if 'nofin' in ctx:
            kinds = [(k, w) for k, w in kinds if k not in ('stop',)]
        if not self.meths:
            kinds = [(k, w) for k, w in kinds
                     if k not in ('putm', 'setm', 'silentm', 'upm')]
        if not self.blocks or 'inl' in ctx:
            kinds = [(k, w) for k, w in kinds if k != 'block']
        if 'super' not in ctx:
            kinds = [(k, w) for k, w in kinds if k != 'super']
        k = r.choices([k for k, w in kinds], [w for k, w in kinds])[0]
        st = 'i' if 'inl' in ctx or r.random() < .3 else 'b'
        s = getattr(self, 'g_' + k)(d - 1, ctx | {'inl'} if st == 'i'
                                    else ctx)
        if 'st' not in s:
            s['st'] = st
        return s

    def short(self, ctx):
        return 'inl' not in ctx and self.feat.get('short') \
            and self.r.random() < .2

    def g_text(self, d, ctx): return self.text()  # noqa: E704

    def g_put0(self, d, ctx):
        s = {'s': 'put', 'e': self.expr(2)}
        if self.feat.get('filter') and self.r.random() < .3 \
                and s['e']['e'] in ('v', 'call'):
            if self.r.random() < .5:
                s['kw'] = {'maxlen': -1, 'also': self.r.choice(
                    [' ', "'", '"(', '/@', "* '"])}
                return s
            s['kw'] = {'maxlen': self.r.choice([0, 1, 3])}
        return s

    def g_echo(self, d, ctx): return {'s': 'echo', 'e': self.expr(2)}  # noqa: E704,E501
    def g_silent(self, d, ctx): return {'s': 'silent', 'e': self.expr(2)}  # noqa: E704,E501

    def g_tern(self, d, ctx):
        return {'s': 'tern', 'c': self.cond(), 'a': self.expr(1),
                'b': self.expr(1)}

    def g_set(self, d, ctx):
        if self.r.random() < .4:
            return {'s': 'set', 'x': self.r.choice(self.inames),
                    'e': self.expr(2, True)}
        return {'s': 'set', 'x': self.r.choice(self.names),
                'e': self.expr(2)}

    def g_gset(self, d, ctx):
        return {'s': 'gset', 'x': self.r.choice(self.names + ['g1']),
                'e': self.expr(2)}

    def g_aug(self, d, ctx):
        if self.feat.get('gset') and self.r.random() < .4:
            return {'s': 'gaug', 'x': self.r.choice(self.names[:2] + ['g1']),
                    'e': self.expr(1, self.r.random() < .7)}
        return {'s': 'aug', 'x': self.r.choice(self.inames),
                'e': self.expr(1, True)}

    def g_del(self, d, ctx):
        return {'s': 'del', 'x': self.r.choice(self.names)}

    def g_pass(self, d, ctx): return {'s': 'pass'}  # noqa: E704
    def g_break(self, d, ctx): return {'s': 'break'}  # noqa: E704
    def g_continue(self, d, ctx): return {'s': 'continue'}  # noqa: E704
    def g_stop(self, d, ctx): return {'s': 'stop'}  # noqa: E704
    def g_return(self, d, ctx): return {'s': 'return', 'e': self.expr(1)}  # noqa: E704,E501

    def g_raise(self, d, ctx):
        return {'s': 'raise', 'x': self.r.choice(
            ['Boom', 'SubBoom', 'ValueError', 'KeyError', 'NotFound'])}

    def g_assert(self, d, ctx): return {'s': 'assert', 'e': self.cond()}  # noqa: E704,E501

    def g_if(self, d, ctx):
        r = self.r
        if self.short(ctx):
            cs = [{'e': self.cond(), 'body': self.sbody()}]
            if r.random() < .4:
                cs.append({'e': {'e': 'else'},
                           'body': self.sbody()})
            return {'s': 'if', 'cs': cs, 'st': 's'}
        cs = [{'e': self.cond(), 'body': self.seq(d, ctx)}]
        while r.random() < .3:
            cs.append({'e': self.cond(), 'body': self.seq(d, ctx)})
        if r.random() < .5:
            cs.append({'e': {'e': 'else'}, 'body': self.seq(d, ctx)})
        return {'s': 'if', 'cs': cs}

    def els(self, d, ctx):
        return self.seq(d, ctx, 1, 2) if (self.feat.get('elses')
                                          and self.r.random() < .25) else []

    def g_unless(self, d, ctx):
        if self.short(ctx):
            return {'s': 'unless', 'e': self.cond(), 'els': [], 'st': 's',
                    'body': self.sbody()}
        return {'s': 'unless', 'e': self.cond(), 'body': self.seq(d, ctx),
                'els': self.els(d, ctx)}

    def g_for(self, d, ctx):
        x = self.r.choice(self.names + ['i', 'j'])
        if self.short(ctx):
            return {'s': 'for', 'x': x, 'e': self.listexpr(), 'els': [],
                    'body': self.sbody(),
                    'st': 's'}
        return {'s': 'for', 'x': x, 'e': self.listexpr(),
                'body': self.seq(d, ctx | {'loop'}),
                'els': self.els(d, ctx)}

    def g_repeat(self, d, ctx):
        e = c(I(self.r.choice([0, 1, 2, 3, 1, 2, -1]))) if self.r.random() < .7 \
            else var(self.r.choice(self.inames))
        if self.short(ctx):
            return {'s': 'repeat', 'e': e, 'els': [], 'st': 's',
                    'body': self.sbody()}
        return {'s': 'repeat', 'e': e, 'els': self.els(d, ctx),
                'body': self.seq(d, ctx | {'loop'})}

    def g_while(self, d, ctx):
        # terminates: the first thing the body does is to count
        self.loopvars += 1
        x = 'w%d' % self.loopvars
        body = [{'s': 'set', 'x': x, 'st': 'b',
                 'e': {'e': 'bin', 'op': '+', 'a': var(x), 'b': c(I(1))}}] \
            + self.seq(d, ctx | {'loop'})
        n = self.r.choice([0, 1, 2, 3])
        cond = {'e': 'bin', 'op': '<', 'a': var(x), 'b': c(I(n))}
        if self.r.random() < .3:
            cond = {'e': 'and', 'a': cond, 'b': self.cond()}
        return {'s': 'while', 'e': cond, 'body': body,
                'els': self.els(d, ctx), 'x': x}

    def g_try(self, d, ctx):
        r = self.r
        if self.short(ctx):
            return {'s': 'try', 'st': 's',
                    'body': self.sbody(),
                    'ex': [{'c': r.choice(['', 'Exception', 'LookupError']),
                            'body': self.sbody()}],
                    'els': [], 'fin': []}
        n = r.choice([0, 1, 1, 1, 2])
        cl = ['Boom', 'SubBoom', 'ValueError', 'LookupError', 'KeyError',
              'NotFound', 'Exception', 'TypeError', 'NameError']
        # (what #stop followed by a writing finally clause leaves behind is
        # not specified)
        fin = self.seq(d, ctx, 1, 2) if (not n or r.random() < .35) else []
        if fin:
            ctx = ctx | {'nofin'}
        ex = [{'c': r.choice(cl), 'body': self.seq(d, ctx, 1, 2)}
              for _ in range(n)]
        if n and r.random() < .4:
            ex[-1]['c'] = ''
        return {'s': 'try', 'body': self.seq(d, ctx), 'ex': ex,
                'els': self.els(d, ctx) if ex else [], 'fin': fin}

    def g_capture(self, d, ctx):
        return {'s': 'capture', 'x': self.r.choice(self.names + ['cap']),
                'body': self.seq(d, ctx | {'region'})}

    def g_call(self, d, ctx):
        r = self.r
        x = r.random()
        ctx = ctx | {'region'}
        if x < .3:
            ns = r.sample(['a', 'b', 'c'], r.randint(1, 3))
            if r.random() < .2:     # one given twice: the later text counts
                ns.insert(r.randint(0, len(ns)), r.choice(ns))
            kn = []
            if r.random() < .35:
                kn = r.sample(['a', 'b', 'c'], r.randint(1, 2))
                if r.random() < .7:
                    kn = [k for k in kn if k not in ns]
            return {'s': 'call', 'f': 'kwshow', 'kn': kn,
                    'args': [self.expr(1) for _ in kn],
                    'parts': [{'n': n, 'body': self.seq(d, ctx)}
                              for n in ns]}
        if x < .4:
            return {'s': 'call', 'f': 'cat', 'args': [self.expr(1)],
                    'parts': [{'n': '', 'body': self.seq(d, ctx)}]}
        f = r.choice(['up', 'ident', 'up', 'nothing']
                     + (['boom'] if self.feat.get('fail') else []))
        one = [m for m, a in self.meths.items() if a == ['?']]
        if one and r.random() < .4:
            f = r.choice(one)
        return {'s': 'call', 'f': f, 'args': [],
                'parts': [{'n': '', 'body': self.seq(d, ctx)}]}

    def g_filter(self, d, ctx):
        r = self.r
        f = r.choice(['WebSafe', 'MaxLen', 'Strip', 'StripSqueeze', 'None',
                      'Brackets', 'Angle', 'WebSafe', 'Brackets', 'Filter'])
        if self.short(ctx) and f not in ('Brackets', 'Angle'):
            return {'s': 'filter', 'f': f, 'st': 's',
                    'body': self.sbody()}
        return {'s': 'filter', 'f': f, 'body': self.seq(d, ctx)}

    def margs(self, f):
        return [self.expr(1) for a in self.meths[f]
                if a == '!' or self.r.random() < .6]

    def g_putm(self, d, ctx):
        f = self.r.choice(sorted(self.meths))
        s = {'s': 'putm', 'f': f, 'args': self.margs(f)}
        s['form'] = self.r.choice(['auto', 'call', 'self', 'call'])
        return s

    def g_setm(self, d, ctx):
        f = self.r.choice(sorted(self.meths))
        return {'s': 'setm', 'f': f, 'args': self.margs(f),
                'x': self.r.choice(self.names), 'g': self.r.random() < .25}

    def g_silentm(self, d, ctx):
        f = self.r.choice(sorted(self.meths))
        return {'s': 'silentm', 'f': f, 'args': self.margs(f)}

    def g_upm(self, d, ctx):
        f = self.r.choice(sorted(self.meths))
        return {'s': 'upm', 'f': f, 'args': self.margs(f)}

    def g_inc(self, d, ctx):
        return dict(self.r.choice(self.includes))

    def g_ec(self, d, ctx):
        return {'s': 'ec', 'f': self.r.choice(
            ['Echo', 'BigEcho', 'ListErrors', 'KeyError', ''])}

    def g_put(self, d, ctx):
        s = self.g_put0(d, ctx)
        if self.feat.get('sil') and self.r.random() < .15 \
                and s['e']['e'] in ('v', 'call'):
            s['sil'] = True
        return s

    def g_block(self, d, ctx):
        s = {'s': 'block', 'f': self.blocks.pop(0)}
        self.used.append(s['f'])
        # the forms of the block's own statements were chosen before
        s['st'] = 'b'
        return s

    def g_super(self, d, ctx):
        return {'s': 'super', 'args': []}


def prep(ss):
    """while loops count in a fresh variable that is set to 0 first"""
    out = []
    for s in ss:
        for f in ('body', 'els', 'fin'):
            if f in s:
                s[f] = prep(s[f])
        for f in ('cs', 'ex', 'parts'):
            if f in s:
                for q in s[f]:
                    q['body'] = prep(q['body'])
        if s['s'] == 'while':
            out.append({'s': 'set', 'x': s['x'], 'e': c(I(0)), 'st': 'b'})
        out.append(s)
    return out


def std_ns(rng):
    ns = base_ns()
    ns['lst'] = L(I(1), S('two'), I(3))
    for x in ('n', 'k'):
        ns[x] = I(rng.choice([0, 1, 2, 3]))
    for x in ('x', 'y', 'z', 'X'):
        if rng.random() < .95:
            ns[x] = rng.choice([I(0), I(1), I(2), S('s<&>'), S(''), N,
                                B(True), I(5), S(' pad  in ')])
    return ns


def meth(args, body):
    return {'args': args, 'body': body}


def world1(rng, body, meths=None, filt='Filter'):
    m = dict(meths or {})
    m['respond'] = meth([], body)
    return {'cls': [{'base': 0, 'meths': m, 'attrs': {}}],
            'objs': [{'cls': 1, 'sl': [1], 'filt': filt}],
            'ns': [std_ns(rng)]}


def render(o=1, trans=False, m='respond'):
    return {'op': 'render', 'o': o, 'trans': trans, 'm': m}


def style(ss, rng, inl=False):
    """random concrete forms (block or inline) for a program"""
    for s in ss:
        i = inl or rng.random() < .25
        s['st'] = 'i' if i else 'b'
        for f in ('body', 'els', 'fin'):
            if f in s:
                style(s[f], rng, i)
        for f in ('cs', 'ex', 'parts'):
            for q in s.get(f, ()):
                style(q['body'], rng, i)
    return ss


def fix_empty(x):
    """TLC prints empty records as empty lists"""
    if isinstance(x, dict):
        return {k: fix_empty(v) for k, v in x.items()}
    if isinstance(x, list):
        return [fix_empty(v) for v in x]
    return x
