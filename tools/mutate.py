#!/usr/bin/env python3
"""tools/mutate.py N SEED [FILE...]: small random edits of the repository's
code; those which pass its tests are run against the checks of their file.
Works on scratch copies; prints SURVIVED for each edit no check reports."""
import ast, concurrent.futures as cf, json, os, random, shutil, subprocess
import sys, tempfile
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
CHECKS = {
    'Cheetah/Parser.py': 'C05 C03 C06 C04 C16 C09 C10 C15 C13 C14',
    'Cheetah/SourceReader.py': 'C03 C05 C06',
    'Cheetah/Compiler.py': 'C04 C07 C08 C09 C10 C13 C06 C16 C02 C03 C15 C14',
    'Cheetah/Template.py': 'C12 C08 C10 C13 C14 C02 C19 C09 C20 C16 C07',
    'Cheetah/NameMapper.py': 'C01 C02 C06',
    'Cheetah/Filters.py': 'C09', 'Cheetah/CacheRegion.py': 'C10 C11',
    'Cheetah/CacheStore.py': 'C11', 'Cheetah/ErrorCatchers.py': 'C15',
    'Cheetah/SettingsManager.py': 'C16', 'Cheetah/Servlet.py': 'C08',
    'Cheetah/DummyTransaction.py': 'C08',
    'Cheetah/CheetahWrapper.py': 'C17',
    'Cheetah/TemplateCmdLineIface.py': 'C17',
    'Cheetah/ImportHooks.py': 'C18', 'Cheetah/ImportManager.py': 'C18',
    'Cheetah/LoadTemplate.py': 'C18',
    'Cheetah/Utils/WebInputMixin.py': 'C20', 'Cheetah/Utils/Misc.py': 'C20',
    'Cheetah/convertTmplPathToModuleName.py': 'C17 C18',
    'Cheetah/Macros/I18n.py': 'C16', 'Cheetah/Unspecified.py': 'C12',
}


def sh(cmd, **kw):
    return subprocess.run(cmd, stdout=subprocess.PIPE,
                          stderr=subprocess.STDOUT, text=True,
                          errors='replace', **kw)


CMP = {ast.Lt: '<=', ast.LtE: '<', ast.Gt: '>=', ast.GtE: '>', ast.Eq: '!=',
       ast.NotEq: '==', ast.Is: 'is not', ast.IsNot: 'is', ast.In: 'not in',
       ast.NotIn: 'in'}


def edits(path, src):
    """(start, end, replacement) of source segments"""
    tree = ast.parse(src)
    lines = src.split('\n')
    off = [0]
    for x in lines:
        off.append(off[-1] + len(x.encode()) + 1)
    b = src.encode()

    def pos(n):
        return (off[n.lineno - 1] + n.col_offset,
                off[n.end_lineno - 1] + n.end_col_offset)

    def seg(n):
        s, e = pos(n)
        return b[s:e].decode()
    out = []
    for n in ast.walk(tree):
        if isinstance(n, (ast.If, ast.While, ast.IfExp)):
            s, e = pos(n.test)
            out.append((s, e, '(not (%s))' % seg(n.test), 'neg'))
        if isinstance(n, ast.BoolOp):
            for v in n.values:
                s, e = pos(n)
                rest = [w for w in n.values if w is not v]
                op = ' and ' if isinstance(n.op, ast.And) else ' or '
                out.append((s, e, '(%s)' % op.join(
                    '(%s)' % seg(w) for w in rest), 'dropcond'))
        if isinstance(n, ast.Compare) and len(n.ops) == 1 \
                and type(n.ops[0]) in CMP:
            s, e = pos(n)
            out.append((s, e, '(%s %s %s)' % (
                seg(n.left), CMP[type(n.ops[0])], seg(n.comparators[0])),
                'cmp'))
        if isinstance(n, ast.Constant) and type(n.value) is int \
                and not isinstance(n.value, bool):
            s, e = pos(n)
            out.append((s, e, str(n.value + 1), 'const'))
        if isinstance(n, ast.Constant) and type(n.value) is bool:
            s, e = pos(n)
            out.append((s, e, str(not n.value), 'bool'))
        if isinstance(n, (ast.Expr, ast.Assign, ast.AugAssign, ast.Delete)) \
                and not (isinstance(n, ast.Expr)
                         and isinstance(n.value, ast.Constant)):
            s, e = pos(n)
            if n.col_offset:
                out.append((s, e, 'pass', 'del'))
        if isinstance(n, ast.Return) and n.value is not None:
            s, e = pos(n)
            out.append((s, e, 'return None', 'ret'))
        if isinstance(n, ast.Try) and n.finalbody and False:
            pass
    return out


def tests(w, top):
    vp = os.path.join(top, 'vp')
    os.makedirs(vp, exist_ok=True)
    for f in ('test.sh', 'build.sh', 'run_module.py', 'results.py'):
        open(os.path.join(vp, f), 'w').write(
            open('/opt/vp/' + f).read().replace('/repo', w)
            .replace('/opt/vp', vp))
    o = os.path.join(top, 'o.json')
    try:
        sh(['bash', '-c', open(vp + '/test.sh').read(), 'test.sh', o],
           timeout=240)
        got = json.load(open(o))
    except Exception:
        return False
    base = json.load(open('/opt/vp/BASELINE.json'))
    b = set(base.get('passed', base.get('tests', base.get('stable', []))))
    return not b - set(got['passed'])


def main():
    n, seed = int(sys.argv[1]), int(sys.argv[2])
    files = sys.argv[3:] or list(CHECKS)
    rng = random.Random(seed)
    muts = []
    for f in files:
        src = open('/repo/' + f).read()
        es = edits(f, src)
        muts += [(f, e) for e in es]
    rng.shuffle(muts)
    muts = muts[:n]

    def prep(m):
        f, (s, e, new, kind) = m
        top = tempfile.mkdtemp(prefix='mut-')
        w = os.path.join(top, 'repo')
        sh(['cp', '-a', '/repo', w])
        b = open('/repo/' + f, 'rb').read()
        nb = b[:s] + new.encode() + b[e:]
        try:
            compile(nb, f, 'exec')
        except SyntaxError:
            shutil.rmtree(top)
            return None
        open(os.path.join(w, f), 'wb').write(nb)
        sh(['find', w, '-name', '__pycache__', '-exec', 'rm', '-rf', '{}',
            '+'])
        ok = tests(w, top)
        if not ok:
            shutil.rmtree(top)
            return None
        sh(['find', w, '-name', '__pycache__', '-exec', 'rm', '-rf', '{}',
            '+'])
        return m, top, w, sh(['git', '-C', w, 'diff', '-U0']).stdout
    alive = []
    with cf.ThreadPoolExecutor(int(os.environ.get('MUT_J', '8'))) as ex:
        for r in ex.map(prep, muts):
            if r:
                alive.append(r)
    print('%d mutants, %d pass the tests' % (len(muts), len(alive)),
          flush=True)
    for m, top, w, diff in alive:
        d = ' | '.join(x for x in diff.split('\n')
                       if x[:2] in ('@@',) or x[:1] in '+-'
                       and x[:3] not in ('+++', '---'))[:400]
        res = 'SURVIVED'
        for c in CHECKS[m[0]].split():
            try:
                r = sh([sys.executable, os.path.join(V, 'checks', c + '.py')],
                       env=dict(os.environ, VERIF_REPO=w), timeout=900)
            except subprocess.TimeoutExpired:
                res = 'TIMEOUT ' + c
                break
            if r.returncode == 1:
                res = 'caught ' + c
                break
            if r.returncode:
                res = 'BROKEN %s %s' % (c, r.stdout[-200:])
                break
        print(res, m[0], m[1][3], d, flush=True)
        shutil.rmtree(top, ignore_errors=True)


main()
