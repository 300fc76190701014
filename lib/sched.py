"""Runs functions in threads under a chosen schedule: only the thread holding
the token runs; it passes the token on after a chosen number of line events in
the code under test.  A thread that makes no progress (because it waits for a
lock) does not stop the others."""
import os
import sys
import threading
import time

REPO = os.path.join(os.environ.get('VERIF_REPO', '/repo'), 'Cheetah') + os.sep
FAST = ('Parser.py', 'Compiler.py', 'SourceReader.py')
_kind = {}


def kind(fn):
    """1: every line counts, 2: lines of the compiler (many), 0: not ours"""
    k = _kind.get(fn)
    if k is None:
        if fn.startswith(REPO):
            k = 2 if os.path.basename(fn) in FAST else 1
        elif not fn.startswith(('/', '<')):
            k = 1                  # a generated module
        else:
            k = 0
        _kind[fn] = k
    return k


class Sched:
    def __init__(self, nthreads, rng, gaps, order=None):
        """gaps(): how many counted events until the next hand-over"""
        self.n = nthreads
        self.rng = rng
        self.gaps = gaps
        self.sem = [threading.Semaphore(0) for _ in range(nthreads)]
        self.alive = [True] * nthreads
        self.waiting = [True] * nthreads
        self.count = [0] * nthreads
        self.tick = 0
        self.coarse = 0
        self.left = gaps()
        self.lock = threading.Lock()
        self.switches = 0
        self.errors = [None] * nthreads

    def pick(self, me):
        c = [i for i in range(self.n) if self.alive[i] and i != me
             and self.waiting[i]]
        return self.rng.choice(c) if c else None

    def tracer(self, me):
        def local(frame, event, arg):
            if event == 'line':
                self.event(me, k2 if frame.f_code in big else 1)
            return local
        big = set()
        k2 = 2

        def glob(frame, event, arg):
            k = kind(frame.f_code.co_filename)
            if not k:
                return None
            if k == 2:
                big.add(frame.f_code)
                # the compiler's inner lines: counted per call only
                self.event(me, 2)
                return None
            return local
        return glob

    def event(self, me, k):
        self.tick += 1
        if k == 2:
            self.coarse += 1
            if self.coarse % 40:
                return
        self.left -= 1
        if self.left <= 0:
            self.left = self.gaps()
            self.handover(me)

    def handover(self, me):
        with self.lock:
            nxt = self.pick(me)
            if nxt is None:
                return
            self.switches += 1
            self.waiting[me] = True
            self.waiting[nxt] = False
            self.sem[nxt].release()
        self.sem[me].acquire()

    def body(self, me, fn):
        self.sem[me].acquire()
        self.waiting[me] = False
        sys.settrace(self.tracer(me))
        try:
            fn()
        except BaseException as e:
            self.errors[me] = e
        finally:
            sys.settrace(None)
            with self.lock:
                self.alive[me] = False
                nxt = self.pick(me)
                if nxt is not None:
                    self.waiting[nxt] = False
                    self.sem[nxt].release()
            self.tick += 1

    def run(self, fns, limit=12.0):
        """True if every thread finished"""
        ths = [threading.Thread(target=self.body, args=(i, f), daemon=True)
               for i, f in enumerate(fns)]
        for t in ths:
            t.start()
        self.waiting[0] = False
        self.sem[0].release()
        end = time.monotonic() + limit
        last, lastt = -1, time.monotonic()
        while any(t.is_alive() for t in ths):
            ths[[t.is_alive() for t in ths].index(True)].join(.01)
            if self.tick != last:
                last, lastt = self.tick, time.monotonic()
            elif time.monotonic() - lastt > .04:
                # whoever has the token waits for something: let others run
                with self.lock:
                    nxt = self.pick(None)
                    if nxt is not None:
                        self.waiting[nxt] = False
                        self.sem[nxt].release()
                lastt = time.monotonic()
            if time.monotonic() > end:
                return False
        return True
