"""Runs a numeric decision over many entry points, one process each."""
import os, pickle, signal, sys, time, traceback
from multiprocessing import Pipe
from multiprocessing.connection import wait
import numdrv, poly, num

LIMIT = {'quick': 170, 'thorough': 1500}


def _one(f, job):
    try:
        return f(*job)
    except num.GiveUp as e:
        return 'undecided', [], {'gaveup': str(e)}
    except RecursionError:
        return 'undecided', [], {'gaveup': 'recursion'}
    except Exception:
        return 'crash', [], {'gaveup': traceback.format_exc()}


def sweep(f, jobs, limit=None):
    """[(result of f(*job), seconds)]; f returns something picklable.  A job past the limit is ended and undecided."""
    limit = limit or LIMIT.get(os.environ.get('VERIF_TIER'), 170)
    sys.setrecursionlimit(20000)
    poly.lib()          # built once, before the workers start
    res, todo, live = [None] * len(jobs), list(range(len(jobs)))[::-1], {}
    sys.stdout.flush(), sys.stderr.flush()
    while todo or live:
        while todo and len(live) < min(8, os.cpu_count() or 8):
            j = todo.pop()
            r, w = Pipe(False)
            pid = os.fork()
            if not pid:
                try:
                    r.close()
                    w.send_bytes(pickle.dumps(_one(f, jobs[j])))
                finally:
                    os._exit(0)
            w.close()
            live[r] = (j, pid, time.time())
        ready = wait(list(live), timeout=1)
        for r, (j, pid, t0) in list(live.items()):
            out = None
            if r in ready:
                try:
                    out = pickle.loads(r.recv_bytes())
                except EOFError:
                    out = 'undecided', [], {'gaveup': 'analysis process ended'}
            elif time.time() - t0 > limit:
                os.kill(pid, signal.SIGKILL)
                out = 'undecided', [], {'gaveup': 'time limit'}
            if out is not None:
                r.close()
                os.waitpid(pid, 0)
                res[j] = (out, time.time() - t0)
                del live[r]
    return res


def pack(st, obs, info, kinds):
    return st, [(o.status, o.kind, o.what, o.where, o.detail, o.n) for o in obs.values() if o.kind in kinds], info


def showctx(ind, at, stream=False):
    if not at:
        return ''
    o = {n: (int(v) if v.denominator == 1 else float(v)) for n, v in zip(ind.opt_names, at[1])}
    return '%s, options %s' % ('calls of sizes %s' % (list(at[0]),) if stream else 'size=%s' % (at[0],), o)
