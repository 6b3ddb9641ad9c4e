"""Entry contexts and contracts for the numeric analysis: batch functions and streams."""
import time
from fractions import Fraction
import poly
from poly import Lin, Poly
from num import Num, State, GiveUp, entry_states, int_options, Ob, FPA
import num


def start_values(ctx, ind, S, prefix='s', deadline=None, optval=None, lazy=()):
    """[(state, Lin)] : value of ti_X_start(options) in state S (its path splits refine S)"""
    fn = ctx.fn(ind.fns['start'], 'flat', ('--norot',))
    a = Num(fn, 'start', ind, prefix=prefix, deadline=deadline)
    if optval is not None:
        a.fix_options(optval)
    a.lazy = lazy
    rets = a.run([S])
    return [(s, a.lin(t.ops[0])) for s, t in rets]


def ints_of(ctx, ind, a):
    fn = ctx.fn(ind.fns['start'], 'flat', ('--norot',))
    return int_options(fn, Num(fn, 'start', ind)) | int_options(a.fn, a)


def batch(ctx, ind, kind, hooks=None, timeout=None, esplit=False, at=None, make=Num):
    """analyse a plain/ref function; returns (obligations, info).  at = (size, option values) narrows the entry
    context to one size and one option vector (bars stay arbitrary)."""
    fn = ctx.fn(ind.fns[kind], 'flat', ('--norot',))
    t0 = time.time()
    deadline = t0 + (timeout or num.TIMEOUT)
    obs = {}
    a = make(fn, kind, ind, obs=obs, deadline=deadline, hooks=hooks)
    a.esplit = esplit
    info = {'fn': fn.name, 'gaveup': None}
    a.room = lambda S: [(s, Lin.var('n') - st if st is not None else None)
                        for s, st in start_values(ctx, ind, S, deadline=deadline, optval=a.optval, lazy=a.lazy)]
    try:
        sts = []
        cs = [(Lin.var('n'), False)] + [(Lin.var('w%d' % k), True) for k in range(ind.nout)]
        if at:
            a.narrow = True
            a.fix_options([Fraction(x) for x in at[1]])
            sts.append(State(Poly.universe().add(*cs).add((Lin.var('n') - at[0], True)), {}))
        else:
            ints = ints_of(ctx, ind, a)
            if len(ints) > 3:
                a.lazy = ints
            for p, key in entry_states(ind, ints):
                sts.append(State(p.add(*cs), {}, key))
        if hooks:
            sts = [hooks.init(a, s) for s in sts]
        rets = a.run(sts)
        nok = 0
        for s, t in rets:
            l = a.lin(t.ops[0])
            if l is None:
                continue
            for s0 in a.assume(s, ('eq', l)):
                for s1, st in start_values(ctx, ind, s0, deadline=deadline, optval=a.optval, lazy=a.lazy):
                    nok += 1
                    a.recstack = [True]
                    if st is None:
                        a.ob('count', t, 'start', s1, None, 'start not understood')
                        continue
                    for k in range(ind.nout):
                        w = Lin.var('w%d' % k)
                        d = Lin.var('n') - st
                        if ('gap', k) in s1.key:
                            y = Lin.var('y%d' % k)
                            a.ob('order', t, 'output %d' % k, s1, None, 'written out of order')
                            a.ob('count', t, 'output %d' % k, s1, ('ge', y - d), 'at most %r elements written, size - start = %r' % (y, d))
                            continue
                        for s2 in a.assume(s1, ('ge', d)):
                            a.ob('count', t, 'output %d' % k, s2, ('eq', w - d), 'written elements against size - start = %r' % d)
                        for s2 in a.assume(s1, ('ge', -d - 1)):
                            a.ob('count', t, 'output %d' % k, s2, ('eq', w), 'nothing may be written')
        info['okay_paths'] = nok
    except GiveUp as e:
        info['gaveup'] = str(e)
    except RecursionError as e:
        info['gaveup'] = 'recursion'
    info['t'] = time.time() - t0
    info['notes'] = sorted(a.notes)
    return obs, info


def sample(p, ind, small=0):
    """(size, option values) of an integer point of p, or None"""
    stat = ['n'] + ['%s%d' % (c, k) for k in range(ind.nopt) for c in 'OFC']
    p = p.eliminate([v for v in p.vars() if v not in stat])
    if p.empty():
        return None
    val = {}
    for v in ['O%d' % k for k in range(ind.nopt)] + ['F%d' % k for k in range(ind.nopt)] + ['C%d' % k for k in range(ind.nopt)] + ['n']:
        if v[0] == 'C':
            cand = [val['F' + v[1:]], val['F' + v[1:]] + 1]
        elif v[0] == 'F' and 'O' + v[1:] in val:
            cand = [val['O' + v[1:]], val['O' + v[1:]] - 1]
        else:
            cand = ([1 + small] if v[0] == 'O' else []) + list(range(0, 60)) + list(range(-1, -4, -1))
        for c in cand:
            q = p.add((Lin.var(v) - c, True))
            if not q.empty():
                p = q
                val[v] = c
                break
        else:
            return None
    opts = []
    for k in range(ind.nopt):
        F, C = val['F%d' % k], val['C%d' % k]
        opts.append(Fraction(F) if F == C else F + Fraction(1, 2))
    return val['n'], tuple(opts)


def contexts(obs, ind):
    """entry contexts in which an undecided obligation may fail"""
    res = []
    for o in obs.values():
        if o.status != 'proved':
            for p in o.bad:
                for small in (0, 2):
                    c = sample(p, ind, small)
                    if c and c not in res:
                        res.append(c)
    return res[:12]


def around(ctx, ind, opts):
    """contexts with these option values and sizes near the first bar with an output"""
    sizes = [1, 2, 0]
    try:
        for s, st in start_values(ctx, ind, State(Poly.universe(), {}), optval=list(opts)):
            c = Num.fixed(None, s, st) if st is not None else None
            if c is not None and 0 <= c <= 60:
                sizes = [c + 1, c + 3, c, c - 1, c + 2, c + 6] + sizes
    except GiveUp:
        pass
    r = []
    for n in sizes:
        if n >= 0 and (n, opts) not in r:
            r.append((n, opts))
    return r


GENERIC = [lambda v, j: v + j, lambda v, j: v, lambda v, j: v - j]


def search(ctx, ind, bad):
    """narrow entry contexts worth a look, most promising first"""
    ctxs = contexts(bad, ind)
    vecs = []
    for _, o in ctxs:
        if o not in vecs:
            vecs.append(o)
    gen = []
    for v in (2, 4, 1, 3):
        for g in GENERIC:
            o = tuple(Fraction(g(v, j)) for j in range(ind.nopt))
            if o not in vecs and o not in gen:
                gen.append(o)
    cols = [around(ctx, ind, o) for o in vecs[:5] + gen[:9]]
    for k in range(9):
        for c in cols:
            if k < len(c) and c[k] not in ctxs:
                ctxs.append(c[k])
    return ctxs


def decide(ctx, ind, kind, kinds, timeout, hooks=None):
    """proof attempts, then a search for an entry context with a definite violation.
    returns (status, obligations, info) with status proved | violated | undecided"""
    best = None
    tried = []
    for es in (False, True):
        obs, info = batch(ctx, ind, kind, hooks=hooks, timeout=timeout, esplit=es)
        bad = [o for o in obs.values() if o.kind in kinds and o.status != 'proved']
        tried.append((info['gaveup'], len(bad)))
        if not info['gaveup'] and not bad:
            info['mode'] = 'entry split' if es else 'plain'
            return 'proved', obs, info
        if best is None or (info['gaveup'] is None, -len(bad)) > best[2]:
            best = (obs, info, (info['gaveup'] is None, -len(bad)))
    obs, info, _ = best
    sel = {k: o for k, o in obs.items() if o.kind in kinds}
    ctxs = search(ctx, ind, sel)
    info['contexts'] = 0
    t0 = time.time()
    for at in ctxs:
        if time.time() - t0 > timeout:
            break
        o2, i2 = batch(ctx, ind, kind, hooks=hooks, timeout=min(10, timeout), at=at)
        info['contexts'] += 1
        v = [o for o in o2.values() if o.kind in kinds and o.status == 'violated']
        if v:
            info['at'] = at
            return 'violated', o2, info
    return 'undecided', obs, info
