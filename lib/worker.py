"""Runs cases of one executor against the Cheetah in VERIF_REPO.
usage: worker.py EXECUTOR MODE IN OUT TIMEOUT"""
import importlib
import json
import os
import signal
import sys

name, mode, inp, outp, timeout = sys.argv[1:6]
timeout = float(timeout)
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, os.environ.get('VERIF_REPO', '/repo'))
sys.dont_write_bytecode = True
if mode == 'pure':
    sys._cheetah_namemapper_pure = True


class CaseTimeout(BaseException):
    pass


def onalarm(*a):
    raise CaseTimeout()


signal.signal(signal.SIGALRM, onalarm)
try:
    ex = importlib.import_module('exec_' + name)
except BaseException:
    import traceback
    traceback.print_exc()
    sys.exit(3)

out = open(outp, 'a', encoding='utf8')
with open(inp, encoding='utf8') as f:
    for line in f:
        i, case = json.loads(line)
        try:
            signal.setitimer(signal.ITIMER_REAL, timeout)
            try:
                obs = ex.run(case)
            finally:
                signal.setitimer(signal.ITIMER_REAL, 0)
        except CaseTimeout:
            obs = {'hang': True}
        except (KeyboardInterrupt, SystemExit) as e:
            obs = {'escaped': type(e).__name__}
        except BaseException as e:
            import traceback
            obs = {'harness_exc': type(e).__name__, 'msg': str(e)[:300],
                   'tb': traceback.format_exc()[-1500:]}
        out.write(json.dumps([i, obs]) + '\n')
        out.flush()
out.close()
