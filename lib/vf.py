"""Common machinery of all checks: building, running cases in the real code,
running TLC, verdicts, known findings, evidence."""
import atexit
import fcntl
import json
import os
import random
import re
import shutil
import subprocess
import sys
import tempfile
import threading
import time

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get('VERIF_REPO', '/repo')
PY = '/opt/venv/bin/python'
SPEC = os.path.join(VERIF, 'spec')
JAR = ('/opt/veriftools/tla/tla2tools.jar:'
       '/opt/veriftools/tla/CommunityModules-deps.jar')
NPROC = min(8, os.cpu_count() or 1)


class MachineryError(Exception):
    pass


def child_env(extra=None):
    e = {'PATH': '/opt/venv/bin:/usr/local/sbin:/usr/local/bin:/usr/sbin:'
                 '/usr/bin:/sbin:/bin',
         'HOME': '/root', 'LC_ALL': 'C.UTF-8', 'PYTHONDONTWRITEBYTECODE': '1',
         'PYTHONHASHSEED': '0', 'TZ': 'UTC',
         'VERIF_REPO': REPO}
    if extra:
        e.update(extra)
    return e


def build():
    """(Re)build the C extension from /repo's working tree, in place (the .so
    and build/ are ignored by git)."""
    lock = open(os.path.join(tempfile.gettempdir(), '.verif-build.lock'), 'w')
    fcntl.flock(lock, fcntl.LOCK_EX)
    try:
        env = child_env({'CHEETAH_C_EXTENSIONS_REQUIRED': '1',
                         'PIP_NO_INDEX': '1'})
        if REPO == '/repo' and os.path.exists('/opt/vp/build.sh'):
            r = subprocess.run(['bash', '/opt/vp/build.sh', '--ext-only'],
                               stdout=subprocess.PIPE,
                               stderr=subprocess.STDOUT)
        else:
            r = subprocess.run([PY, 'setup.py', 'build_ext', '--inplace',
                                '--force'], cwd=REPO, env=env,
                               stdout=subprocess.PIPE,
                               stderr=subprocess.STDOUT)
        if r.returncode:
            raise MachineryError('build failed:\n'
                                 + r.stdout.decode('utf8', 'replace')[-3000:])
    finally:
        lock.close()


class TLCResult:
    def __init__(self):
        self.generated = 0
        self.distinct = 0
        self.inits = 0
        self.records = []
        self.out = ''
        self.rc = None
        self.violated = None
        self.coverage = {}


class Check:
    def __init__(self, prop, level='model_checking'):
        self.prop = prop
        self.level = level
        self.tier = os.environ.get('VERIF_TIER', 'quick')
        if self.tier not in ('quick', 'thorough'):
            self.tier = 'quick'
        self.seed = int(os.environ.get('VERIF_SEED', '1') or 1)
        self.rng = random.Random('%s/%d' % (prop, self.seed))
        self.t0 = time.time()
        self.scratch = tempfile.mkdtemp(prefix='verif-%s-' % prop)
        atexit.register(shutil.rmtree, self.scratch, True)
        self.states = self.transitions = 0
        self.validated = 0
        self.evaluations = 0
        self.samples = []
        self.notes = {}
        self.assumptions = []
        self.violations = []
        self.known_hits = {}
        self.known = load_known(prop)
        self.distinct = set()
        self.lock = threading.Lock()
        build()

    def thorough(self):
        return self.tier == 'thorough'

    def n(self, quick, thorough):
        return thorough if self.thorough() else quick

    def path(self, name):
        return os.path.join(self.scratch, name)

    # ------------------------------------------------------------------
    def log(self, *a):
        print('[%s %6.1fs]' % (self.prop, time.time() - self.t0), *a,
              flush=True)

    # ---------------------------------------------------------------- TLC
    def tlc(self, module, cfg=None, env=None, workers=NPROC, simulate=None,
            depth=None, timeout=800, extra=(), heap='6g', seed=None,
            allow_violation=False, name=None, count=True,
            extra_modules=None):
        """Run TLC on spec/<module>.tla.  cfg: text of the configuration, or
        None for spec/<module>.cfg.  Lines printed by the specification with
        Emit(rec) come back as records."""
        name = name or module
        d = tempfile.mkdtemp(prefix='tlc-', dir=self.scratch)
        for f in os.listdir(SPEC):
            if f.endswith('.tla'):
                shutil.copy(os.path.join(SPEC, f), d)
        for m, text in (extra_modules or {}).items():
            with open(os.path.join(d, m + '.tla'), 'w') as f:
                f.write(text)
        cfgp = os.path.join(d, name + '_run.cfg')
        if cfg is None:
            shutil.copy(os.path.join(SPEC, module + '.cfg'), cfgp)
        else:
            with open(cfgp, 'w') as f:
                f.write(cfg)
        cmd = ['java', '-XX:+UseParallelGC', '-Xmx' + heap, '-Xss64m',
               '-Dfile.encoding=UTF-8', '-cp', JAR, 'tlc2.TLC',
               '-config', cfgp, '-workers', str(workers),
               '-metadir', os.path.join(d, 'meta'), '-noGenerateSpecTE',
               '-deadlock', '-fp', '1']
        if simulate:
            cmd += ['-simulate', 'num=%d' % simulate]
            cmd += ['-seed', str(seed if seed is not None else self.seed)]
            if depth:
                cmd += ['-depth', str(depth)]
        cmd += list(extra) + [module + '.tla']
        e = dict(os.environ)
        e.update({k: str(v) for k, v in (env or {}).items()})
        e['LC_ALL'] = 'C.UTF-8'
        outp = os.path.join(d, 'out.txt')
        res = TLCResult()
        with open(outp, 'wb') as of:
            try:
                r = subprocess.run(cmd, cwd=d, env=e, stdout=of,
                                   stderr=subprocess.STDOUT, timeout=timeout)
                res.rc = r.returncode
            except subprocess.TimeoutExpired:
                raise MachineryError('TLC timed out on %s' % name)
        rest = []
        with open(outp, encoding='utf8', errors='replace') as f:
            for line in f:
                if line.startswith('"@@'):
                    res.records.append(json.loads(json.loads(line)[2:]))
                else:
                    rest.append(line)
        res.out = ''.join(rest)
        m = re.search(r'(\d+) states generated, (\d+) distinct', res.out)
        if m:
            res.generated, res.distinct = int(m.group(1)), int(m.group(2))
        m = re.search(r'The number of states generated: (\d+)', res.out)
        if m and not res.generated:
            res.generated = res.distinct = int(m.group(1))
        m = re.search(r'Finished computing initial states: (\d+)', res.out)
        if m:
            res.inits = int(m.group(1))
        m = re.search(r'Error: Invariant (\S+) is violated', res.out)
        if not m:
            m = re.search(r'Error: Action property (\S+) is violated',
                          res.out)
        if m:
            res.violated = m.group(1)
        ok = ('Model checking completed. No error' in res.out
              or (simulate and res.rc == 0))
        if not ok and not (allow_violation and res.violated):
            i = max(res.out.find('Error:'), 0)
            raise MachineryError('TLC failed on %s (rc %s):\n%s'
                                 % (name, res.rc, res.out[i:i + 4000]))
        if count:
            with self.lock:
                self.states += res.distinct
                self.transitions += max(res.generated - res.inits, 0)
        shutil.rmtree(d, True)
        return res

    # -------------------------------------------------- running real code
    def run_cases(self, executor, cases, mode='c', timeout=20, workers=None,
                  extra_env=None):
        """Run each case (a JSON value) with lib/exec_<executor>.py's run(case)
        in worker processes importing Cheetah from /repo.  Returns a list of
        observations; a hang gives {'hang': True}, a crash of the interpreter
        {'crash': n}."""
        n = len(cases)
        workers = min(workers or NPROC, max(1, n))
        obs = [None] * n
        chunks = [list(range(i, n, workers)) for i in range(workers)]
        errs = []

        def go(w, idxs):
            try:
                self._run_chunk(executor, cases, idxs, obs, mode, timeout, w,
                                extra_env)
            except Exception as e:  # pragma: no cover
                errs.append(e)
        ths = [threading.Thread(target=go, args=(w, c))
               for w, c in enumerate(chunks)]
        for t in ths:
            t.start()
        for t in ths:
            t.join()
        if errs:
            raise errs[0]
        with self.lock:
            self.evaluations += n
        return obs

    def _run_chunk(self, executor, cases, idxs, obs, mode, timeout, w,
                   extra_env):
        d = tempfile.mkdtemp(prefix='w%d-' % w, dir=self.scratch)
        todo = list(idxs)
        while todo:
            inp = os.path.join(d, 'in.jsonl')
            outp = os.path.join(d, 'out.jsonl')
            with open(inp, 'w') as f:
                for i in todo:
                    f.write(json.dumps([i, cases[i]]) + '\n')
            open(outp, 'w').close()
            cwd = os.path.join(d, 'cwd')
            os.makedirs(cwd, exist_ok=True)
            errp = open(os.path.join(d, 'err.txt'), 'wb')
            p = subprocess.Popen(
                [PY, '-W', 'ignore', os.path.join(VERIF, 'lib', 'worker.py'),
                 executor, mode, inp, outp, str(timeout)],
                cwd=cwd, stdin=subprocess.DEVNULL,
                stdout=subprocess.DEVNULL, stderr=errp,
                env=child_env(extra_env), start_new_session=True)
            last, lastt = 0, time.time()
            while True:
                try:
                    p.wait(timeout=0.25)
                    break
                except subprocess.TimeoutExpired:
                    pass
                sz = os.path.getsize(outp)
                if sz != last:
                    last, lastt = sz, time.time()
                elif time.time() - lastt > timeout * 2 + 20:
                    try:
                        os.killpg(p.pid, 9)
                    except OSError:
                        pass
                    p.wait()
                    break
            errp.close()
            done = 0
            with open(outp) as f:
                for line in f:
                    if not line.endswith('\n'):
                        break
                    i, o = json.loads(line)
                    obs[i] = o
                    done += 1
            if done == 0 and p.returncode == 3:
                raise MachineryError(
                    'worker failed to start: '
                    + open(os.path.join(d, 'err.txt'), errors='replace'
                           ).read()[-3000:])
            if done < len(todo):
                obs[todo[done]] = ({'hang': True} if p.returncode == -9
                                   else {'crash': p.returncode})
                done += 1
            todo = todo[done:]
        shutil.rmtree(d, True)

    # ------------------------------------------------------------ verdicts
    def violate(self, clause, case, expected=None, observed=None, key=None):
        """Record a violation.  `key` identifies it for the known-findings
        file (a string describing the specific input or history)."""
        key = key or clause
        for k in self.known:
            if k['key'] == key:
                self.known_hits[k['key']] = k
                return
        if len(self.violations) < 50:
            self.violations.append({'clause': clause, 'case': case,
                                    'expected': expected,
                                    'observed': observed})
        else:
            self.violations.append(None)

    def sample(self, s):
        if len(self.samples) < 5:
            self.samples.append(s)

    def saw(self, x):
        self.distinct.add(hash(x))

    def finish(self):
        viol = len(self.violations)
        cov = {'states': self.states, 'transitions': self.transitions,
               'traces_validated_against_impl': self.validated,
               'evaluations': self.evaluations,
               'samples': self.samples or ['(none)']}
        if self.distinct:
            cov['distinct_nontrivial'] = len(self.distinct)
        cov.update(self.notes)
        ev = {'property': self.prop, 'tier': self.tier, 'seed': self.seed,
              'level': self.level, 'coverage': cov,
              'assumptions': self.assumptions,
              'wall_s': round(time.time() - self.t0, 2),
              'violations': viol}
        os.makedirs(os.path.join(VERIF, 'evidence'), exist_ok=True)
        with open(os.path.join(VERIF, 'evidence', self.prop + '.json'),
                  'w') as f:
            json.dump(ev, f, indent=1, ensure_ascii=True, default=str)
            f.write('\n')
        for k in self.known_hits.values():
            print('KNOWN-FINDING: property=%s %s' % (self.prop, k['text']))
        rp = os.path.join(VERIF, 'evidence', 'replay', self.prop + '.json')
        if os.path.exists(rp):
            os.unlink(rp)
        if viol:
            d = os.path.join(VERIF, 'evidence', 'replay')
            os.makedirs(d, exist_ok=True)
            rp = os.path.join(d, self.prop + '.json')
            with open(rp, 'w') as f:
                json.dump([v for v in self.violations if v], f, indent=1,
                          default=str)
            for v in [v for v in self.violations if v][:5]:
                print('  clause %s' % v['clause'])
                print('    case     %s' % _short(v['case']))
                print('    expected %s' % _short(v['expected']))
                print('    observed %s' % _short(v['observed']))
            print('VIOLATION property=%s replay=%s' % (self.prop, rp))
            sys.stdout.flush()
            sys.exit(1)
        self.log('ok: %d model states, %d transitions, %d traces, '
                 '%d executions' % (self.states, self.transitions,
                                    self.validated, self.evaluations))
        sys.exit(0)


def _short(x, n=1500):
    s = x if isinstance(x, str) else json.dumps(x, default=str)
    return s if len(s) <= n else s[:n] + '...'


def load_known(prop):
    """known_findings.txt: lines 'finding: property=<id> key=<key> :: <text>'
    and 'fixed: property=<id> <commit> <what failed>' (the latter suppress
    nothing)."""
    res = []
    p = os.path.join(VERIF, 'known_findings.txt')
    if os.path.exists(p):
        for line in open(p, encoding='utf8'):
            m = re.match(r'finding: property=(\S+) key=(.*?) :: (.*)$',
                         line.strip())
            if m and m.group(1) == prop:
                res.append({'key': m.group(2), 'text': m.group(3)})
    return res


def ndjson(path, recs):
    with open(path, 'w', encoding='utf8') as f:
        for r in recs:
            f.write(json.dumps(r, ensure_ascii=False) + '\n')
    return path


def main(fn):
    """Run a check's body with total outcomes: 0, 1 + VIOLATION, or 2 for a
    machinery failure."""
    try:
        fn()
    except SystemExit:
        raise
    except MachineryError as e:
        print('MACHINERY ERROR:', e, file=sys.stderr)
        sys.exit(2)
    except Exception:
        import traceback
        traceback.print_exc()
        sys.exit(2)
