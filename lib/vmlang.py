"""Concrete syntax for the abstract machine's programs (spec/CheetahVM.tla).

Every statement may carry a style hint 'st': 'b' = block form, directives on
lines of their own; 'i' = inline form, closed by the end token; 's' = the
single-line short form with a colon (its body must end with the text "\\n").
None of the forms changes the meaning: whitespace removed with a directive
alone on its line, and line ends after #slurp, belong to the directive."""
import random


def lit(v):
    t = v['t']
    if t == 'i':
        return str(v['v'])
    if t == 's':
        return repr(v['v'])
    if t == 'b':
        return 'True' if v['v'] else 'False'
    if t == 'n':
        return 'None'
    if t == 'l':
        return '[' + ', '.join(lit(x) for x in v['v']) + ']'
    raise ValueError(v)


def expr(e, top=False):
    k = e['e']
    if k == 'c':
        return lit(e['v'])
    if k == 'v':
        return '$' + e['x']
    if k == 'bin':
        s = '%s %s %s' % (expr(e['a']), e['op'], expr(e['b']))
    elif k in ('and', 'or'):
        s = '%s %s %s' % (expr(e['a']), k, expr(e['b']))
    elif k == 'not':
        s = 'not %s' % expr(e['a'])
    elif k == 'list':
        return '[' + ', '.join(expr(x) for x in e['l']) + ']'
    elif k == 'idx':
        a = expr(e['a'])
        return '%s[%s]' % (a, expr(e['i']))
    elif k == 'call':
        return '$%s(%s)' % (e['f'], ', '.join(expr(x) for x in e['args']))
    elif k == 'has':
        return '$self.hasVar("%s")' % e['x']
    else:
        raise ValueError(e)
    return s if top else '(' + s + ')'


def placeholder(e, kw=None, form=None):
    k = e['e']
    kws = ''
    if kw and kw.get('maxlen', -1) >= 0:
        kws = ', maxlen=%d' % kw['maxlen']
    if kw and kw.get('also'):
        kws += ', also=' + repr(kw['also'])
    if k in ('v', 'call'):
        body = expr(e)[1:]
        if form == 'bare' and not kws:
            return '$' + body
        return '${' + body + kws + '}'
    if kws:
        return '${(' + expr(e, True) + ')' + kws + '}'
    return '${(' + expr(e, True) + ')}'


class Unparser:
    """seed drives the choices that must not matter (indentation, colons,
    end-tag spelling)."""

    def __init__(self, seed=0, dtok='#', dend='#'):
        self.r = random.Random(seed)
        self.d = dtok
        self.de = dend

    # -- helpers
    def line(self, text):
        """a directive alone on its line"""
        ind = ' ' * self.r.choice([0, 0, 1, 4]) if self.r.random() < .9 \
            else '\t'
        tail = self.r.choice(['', '', '', ' '])
        return ind + self.d + text + tail + '\n'

    def tag(self, text):
        return self.d + text + self.de

    def colon(self):
        return self.r.choice(['', '', ':'])

    def seq(self, ss, st):
        if st == 'b':
            return ''.join(self.block(s) for s in ss)
        return ''.join(self.inline(s) for s in ss)

    def open(self, st, text, colon=False):
        if colon and st == 'b':
            # inline, a colon would start the single-line short form
            text += self.colon()
        return self.line(text) if st == 'b' else self.tag(text)

    # -- statements
    def block(self, s):
        st = s.get('st', 'b')
        if s['s'] in ('text',):
            return s['v'] + '#slurp\n' if not s['v'].endswith('\n') \
                else s['v']
        if st == 's':
            return self.short(s)
        if st == 'i' or s['s'] in ('put', 'putm', 'super_i', 'upm'):
            return self.inline(s) + '#slurp\n'
        return self.stmt(s, 'b')

    def inline(self, s):
        if s['s'] == 'text':
            return s['v']
        assert s.get('st') != 's', s
        return self.stmt(s, 'i')

    def short(self, s):
        k = s['s']

        def body(b):
            assert b and b[-1] == {'s': 'text', 'v': '\n'}, b
            return self.seq(b[:-1], 'i') + '\n'
        d = self.d
        if k == 'if':
            out = ''
            for j, c in enumerate(s['cs']):
                if c['e']['e'] == 'else':
                    out += d + 'else: ' + body(c['body'])
                else:
                    out += d + ('if ' if j == 0 else 'elif ') \
                        + expr(c['e'], True) + ': ' + body(c['body'])
            return out
        if k == 'for':
            return d + 'for $%s in %s: ' % (s['x'], expr(s['e'], True)) \
                + body(s['body'])
        if k == 'repeat':
            return d + 'repeat %s: ' % expr(s['e'], True) + body(s['body'])
        if k == 'unless':
            return d + 'unless %s: ' % expr(s['e'], True) + body(s['body'])
        if k == 'filter':
            return d + 'filter %s: ' % s['f'] + body(s['body'])
        if k == 'try':
            out = d + 'try: ' + body(s['body'])
            for x in s['ex']:
                out += d + 'except%s: ' % (' ' + x['c'] if x['c'] else '') \
                    + body(x['body'])
            if s['fin']:
                out += d + 'finally: ' + body(s['fin'])
            return out
        raise ValueError(k)

    def stmt(self, s, st):
        k = s['s']
        o = self.open
        if k in ('put', 'putm', 'upm') and 'raw' in s:
            return s['raw']
        if k == 'put':
            t = placeholder(s['e'], s.get('kw'), s.get('form'))
            return '$!' + t[1:] if s.get('sil') else t
        if k == 'putm':
            e = {'e': 'call', 'f': s['f'], 'args': s['args']}
            if s.get('form') == 'auto' and not s['args']:
                e = {'e': 'v', 'x': s['f']}
            if s.get('form') == 'self':
                e = dict(e, f='self.' + s['f']) if e['e'] == 'call' \
                    else dict(e, x='self.' + s['f'])
            t = placeholder(e, s.get('kw'), s.get('form'))
            return '$!' + t[1:] if s.get('sil') else t
        if k == 'upm':
            return '${up($%s(%s))}' % (s['f'], ', '.join(
                expr(a) for a in s['args']))
        if k == 'echo':
            return o(st, 'echo ' + expr(s['e'], True))
        if k == 'silent':
            return o(st, 'silent ' + expr(s['e'], True))
        if k == 'silentm':
            return o(st, 'silent $%s(%s)' % (s['f'], ', '.join(
                expr(a) for a in s['args'])))
        if k == 'tern':
            return o(st, 'if %s then %s else %s' % (
                expr(s['c']), expr(s['a']), expr(s['b'])))
        if k == 'set':
            return o(st, 'set %s%s = %s' % (
                self.r.choice(['$', '$', '', 'local $', 'local ']), s['x'],
                expr(s['e'], True)))
        if k == 'gset':
            return o(st, 'set global %s%s = %s' % (
                self.r.choice(['$', '$', '']), s['x'], expr(s['e'], True)))
        if k == 'setm':
            return o(st, 'set %s$%s = $%s(%s)' % (
                'global ' if s['g'] else '', s['x'], s['f'],
                ', '.join(expr(a) for a in s['args'])))
        if k == 'aug':
            return o(st, 'set $%s += %s' % (s['x'], expr(s['e'], True)))
        if k == 'gaug':
            return o(st, 'set global $%s += %s' % (s['x'],
                                                   expr(s['e'], True)))
        if k == 'del':
            return o(st, 'del ' + s['x'])
        if k == 'if':
            out = ''
            for j, c in enumerate(s['cs']):
                if c['e']['e'] == 'else':
                    out += o(st, 'else', True)
                elif j == 0:
                    out += o(st, 'if ' + expr(c['e'], True), True)
                else:
                    out += o(st, self.r.choice(['elif ', 'else if '])
                             + expr(c['e'], True), True)
                out += self.seq(c['body'], st)
            return out + self.end(st, 'if')
        if k == 'unless':
            out = o(st, 'unless ' + expr(s['e'], True), True) \
                + self.seq(s['body'], st)
            if s['els']:
                out += o(st, 'else', True) + self.seq(s['els'], st)
            return out + self.end(st, 'unless')
        if k == 'for':
            out = o(st, 'for %s%s in %s' % (self.r.choice(['$', '']),
                                            s['x'], expr(s['e'], True)),
                    True) + self.seq(s['body'], st)
            if s['els']:
                out += o(st, 'else', True) + self.seq(s['els'], st)
            return out + self.end(st, 'for')
        if k == 'while':
            out = o(st, 'while ' + expr(s['e'], True), True) \
                + self.seq(s['body'], st)
            if s['els']:
                out += o(st, 'else', True) + self.seq(s['els'], st)
            return out + self.end(st, 'while')
        if k == 'repeat':
            out = o(st, 'repeat ' + expr(s['e'], True), True) \
                + self.seq(s['body'], st)
            if s['els']:
                out += o(st, 'else', True) + self.seq(s['els'], st)
            return out + self.end(st, 'repeat')
        if k in ('pass', 'break', 'continue', 'stop'):
            return o(st, k)
        if k == 'return':
            return o(st, 'return ' + expr(s['e'], True))
        if k == 'raise':
            x = s['x']
            return o(st, 'raise %s("m")' % ('$' + x if 'oom' in x else x))
        if k == 'assert':
            return o(st, 'assert ' + expr(s['e'], True))
        if k == 'try':
            out = o(st, 'try', True) + self.seq(s['body'], st)
            for x in s['ex']:
                c = x['c']
                if 'oom' in c:
                    c = '$' + c
                out += o(st, 'except%s' % (' ' + c if c else ''), True) \
                    + self.seq(x['body'], st)
            if s['els']:
                out += o(st, 'else', True) + self.seq(s['els'], st)
            if s['fin']:
                out += o(st, 'finally', True) + self.seq(s['fin'], st)
            return out + self.end(st, 'try')
        if k == 'capture':
            return o(st, 'capture ' + s['x']) \
                + self.seq(s['body'], st) + self.end(st, 'capture')
        if k == 'call':
            f = '$' + s['f']
            a = ', '.join(expr(x) for x in s['args'])
            if s.get('kn'):
                a = ', '.join('%s=%s' % (n, expr(x))
                              for n, x in zip(s['kn'], s['args']))
            out = o(st, 'call %s%s' % (f, ' ' + a if a else ''))
            for p in s['parts']:
                if p['n']:
                    out += o(st, 'arg ' + p['n'])
                out += self.seq(p['body'], st)
            return out + self.end(st, 'call')
        if k == 'filter':
            f = s['f']
            if f in ('Brackets', 'Angle'):
                f = '$' + f
            return o(st, 'filter ' + f) + self.seq(s['body'], st) \
                + self.end(st, 'filter')
        if k == 'super':
            return o(st, 'super(%s)' % ', '.join(
                     self.r.choice(['x', '$x']) if a['e'] == 'v'
                     else 'x=' + expr(a) for a in s['args'])
                     if s['args'] or self.r.random() < .5 else 'super()')
        if k == 'block':
            f = s['f']
            if s.get('st') == 'i' or st == 'i':
                return self.tag('block ' + f) + self.seq(
                    self.cur['meths'][f]['body'], 'i') + self.tag('end block')
            return self.line('block ' + self.r.choice(['', '$']) + f) \
                + self.seq(self.cur['meths'][f]['body'], 'b') \
                + self.line(self.r.choice(['end block', 'end block ' + f]))
        if k == 'ec':
            return o(st, 'errorCatcher ' + s['f'] if s['f']
                     else 'end errorCatcher')
        if k == 'inc':
            if self.r.random() < .15:
                # by a plain name that begins like a word of the directive
                v = self.r.choice(['sourceA', 'rawA', 'source_', 'raw1'])
                return o(st, 'set %s = %s' % (v, expr(s['e'], True))) \
                    + o(st, 'include %s%s%s' % (
                        'raw ' if s['raw'] else '',
                        'source=' if s['from'] == 'str' else '', v))
            return o(st, 'include %s%s%s' % (
                'raw ' if s['raw'] else '',
                'source=' if s['from'] == 'str' else '',
                expr(s['e'], True)))
        raise ValueError(k)

    def end(self, st, name):
        t = 'end ' + name
        if self.r.random() < .1:
            t = 'end  ' + name
        return self.line(t) if st == 'b' else self.tag(t)

    def cls(self, c, main='respond'):
        """source of a whole class"""
        self.cur = c
        self.blocks = set(c.get('blocks', ()))
        parts = [self.line(x) for x in c.get('head', ())]
        for a, v in c['attrs'].items():
            parts.append(self.line('attr $%s = %s' % (a, lit(v))))
        for a, v in c.get('mod', {}).items():
            parts.append(self.line('set module $%s = %s' % (a, lit(v))))
        names = [n for n in c['meths'] if n != main
                 and n not in self.blocks]
        late = c.get('late', [])
        kind = c.get('kind', {})
        for n in names:
            if n not in late:
                parts.append(self.method(n, c['meths'][n],
                                         kind.get(n, 'def')))
        if main in c['meths']:
            parts.append(self.seq(c['meths'][main]['body'], 'b'))
        for n in names:
            if n in late:
                parts.append(self.method(n, c['meths'][n],
                                         kind.get(n, 'def')))
        return ''.join(parts)

    def method(self, name, M, kind='def'):
        args = []
        for a in M['args']:
            args.append(self.r.choice(['$', '']) + a['n']
                        + ('=' + lit(a['d'][0]) if a['d'] else ''))
        sig = name + ('(' + ', '.join(args) + ')' if args else
                      self.r.choice(['', '()']))
        if kind == 'block':
            return self.line('block ' + name) + self.seq(M['body'], 'b') \
                + self.line(self.r.choice(['end block', 'end block ' + name]))
        return self.line('def ' + sig) + self.seq(M['body'], 'b') \
            + self.line(self.r.choice(['end def', 'end def ' + name]))
