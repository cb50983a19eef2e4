"""Replays harness inputs against the plain, un-instrumented code.

stdin: JSON {"property", "src", "jobs": [{"harness", "case", "inputs", "timeout"}]}
stdout: one JSON result per line: {"outcome": pass|assume|fail|exception|timeout, "label", "observed"}
"""
import importlib
import json
import os
import random
import resource
import signal
import sys
import traceback

HERE = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, HERE)

from se import ctx as C  # noqa: E402


class Timeout(BaseException):
    pass


def on_alarm(*_):
    raise Timeout()


CURRENT = [None]


def patch_random():
    """random.* hands out the floats the solver chose (only while a replay runs)."""
    names = ('gauss', 'normalvariate', 'random', 'uniform', 'triangular', 'betavariate', 'expovariate',
             'gammavariate', 'lognormvariate', 'vonmisesvariate', 'paretovariate', 'weibullvariate')

    def mk(name, orig, method):
        def f(*a, **k):
            c = CURRENT[0]
            if c is None:
                return orig(*a, **k)
            return c.random_hook(name)
        f.__name__ = name
        return f
    for n in names:
        setattr(random, n, mk(n, getattr(random, n), False))
        if n in vars(random.Random) or hasattr(random.Random, n):
            setattr(random.Random, n, mk(n, getattr(random.Random, n), True))


def run(h, job):
    ctx = C.ConcreteCtx(C.decode_inputs(job['inputs']), job['case'])
    CURRENT[0] = ctx
    out = {'label': None, 'detail': ''}
    signal.setitimer(signal.ITIMER_REAL, job.get('timeout', 20))
    try:
        try:
            h.fn(ctx, job['case'])
            out['outcome'] = 'pass'
        finally:
            signal.setitimer(signal.ITIMER_REAL, 0)
    except C.AssumptionFailed as e:
        out['outcome'] = 'assume'
        out['detail'] = str(e)
    except C.CheckFailed as e:
        out['outcome'], out['label'] = 'fail', e.label
    except Timeout:
        out['outcome'], out['label'] = 'timeout', 'termination'
    except (Exception, MemoryError) as e:
        out['outcome'], out['label'] = 'exception', 'exception %s' % type(e).__name__
        out['detail'] = ''.join(traceback.format_exception(e)[-6:])[-1500:]
    finally:
        CURRENT[0] = None
    out['observed'] = ctx.observed
    return out


def main():
    req = json.load(sys.stdin)
    sys.path.insert(0, req['src'])
    patch_random()
    signal.signal(signal.SIGALRM, on_alarm)
    resource.setrlimit(resource.RLIMIT_AS, (8 << 30, 8 << 30))
    mod = importlib.import_module('props.' + req['property'].lower())
    out = sys.stdout
    for job in req['jobs']:
        r = run(mod.H.named(job['harness']), job)
        out.write(json.dumps(r) + '\n')
        out.flush()


if __name__ == '__main__':
    main()
