"""Streams: the invariant of a stream between calls, and the obligations of every run call from it."""
import time
from fractions import Fraction
import num
from num import Num, State, GiveUp, entry_states, int_options, FPA, cellvar
from numdrv import start_values, contexts, around, GENERIC
from poly import Lin, Poly, hull, widen

N, P0 = Lin.var('n'), Lin.var('p0')
PC = (('stream',), 4)              # the progress counter
PV = Lin.var(cellvar(*PC))


def rename_base(S, old, new):
    """the object base `old` becomes `new` (cells, sizes, vectors inside it)"""
    so, sn = '.'.join(str(x) for x in old), '.'.join(str(x) for x in new)

    def rb(b):
        if b == old:
            return new
        if b[0] == 'vec' and b[1].startswith(so + '@'):
            return ('vec', sn + b[1][len(so):])
        return b
    ren = {}
    for v in S.p.vars():
        if v.startswith('c:' + so + ':'):
            ren[v] = 'c:' + sn + v[2 + len(so):]
        elif v == 'z:' + so:
            ren[v] = 'z:' + sn
        elif v.startswith('z:vec.' + so + '@'):
            ren[v] = 'z:vec.' + sn + v[6 + len(so):]
        elif v.startswith('c:vec.' + so + '@'):
            ren[v] = 'c:vec.' + sn + v[6 + len(so):]
    mem = {}
    for k, v in S.mem.items():
        if k[0] in ('zero', 'size', 'sc', 'sa', 'sm'):
            k = (k[0], rb(k[1])) + k[2:]
        elif isinstance(k[0], tuple):
            k = (rb(k[0]),) + k[1:]
        if isinstance(v, tuple) and v and v[0] in ('p', 'pv'):
            v = (v[0], rb(v[1])) + v[2:]
        mem[k] = v
    return State(S.p.rename(ren) if ren else S.p, mem, S.key, S.exact)


def boundary(S, keep=()):
    """what a stream keeps between calls"""
    live = set()
    mem = {k: v for k, v in S.mem.items() if k[0] not in ('pl', 'fl', 'handed', 'sh', 'so', 'pc', 'rb', 'fd')}
    # objects reachable from the stream
    work, bases = [('stream',)], set()
    while work:
        b = work.pop()
        if b in bases:
            continue
        bases.add(b)
        for k, v in mem.items():
            if isinstance(k[0], tuple) and k[0] == b and isinstance(v, tuple) and v and v[0] in ('p', 'pv'):
                work.append(v[1])
    names = ['.'.join(str(x) for x in b) for b in bases]

    def held(b):
        return b in bases or (b[0] == 'vec' and any(b[1].startswith(n + '@') for n in names))
    mem = {k: v for k, v in mem.items() if k[0] in ('sx', 'rc') or held(k[1] if k[0] in ('zero', 'size', 'sc', 'sa', 'sm') else k[0])}
    drop = []
    for v in S.p.vars():
        if v[0] in 'OFCt':
            continue
        if v.startswith('c:') or v.startswith('z:'):
            b = v[2:].rsplit(':', 1)[0] if v[0] == 'c' else v[2:]
            if any(b == n or b.startswith('vec.' + n + '@') for n in names):
                continue
        drop.append(v)
    key = frozenset(t for t in S.key if t[0] in ('o', 'st'))
    return State(S.p.eliminate(drop), mem, key, S.exact)


class Stream:
    def __init__(self, ctx, ind, timeout, narrow=None):
        self.ctx, self.ind = ctx, ind
        self.deadline = time.time() + timeout
        self.obs = {}
        self.narrow = narrow
        self.optval = [Fraction(x) for x in narrow] if narrow is not None else None
        self.lazy = ()
        self.make = Num
        self.info = {'fn': ind.fns['run'], 'gaveup': None, 'notes': []}

    def num(self, kind, prefix):
        fn = self.ctx.fn(self.ind.fns[kind], 'flat', ('--norot',))
        a = self.make(fn, kind, self.ind, prefix=prefix, obs=self.obs, deadline=self.deadline)
        if self.optval is not None:
            a.fix_options(self.optval)
            a.narrow = True
        a.lazy = self.lazy
        return a

    def entries(self):
        if self.optval is not None:
            return [State(Poly.universe(), {})]
        fs = [(self.ctx.fn(self.ind.fns[k], 'flat', ('--norot',)), k) for k in ('start', 'new', 'run')]
        ints = set()
        for fn, k in fs:
            ints |= int_options(fn, Num(fn, k, self.ind))
        if len(ints) > 3:
            self.lazy = ints
        return [State(p, {}, key) for p, key in entry_states(self.ind, ints)]

    def start(self, S):
        return start_values(self.ctx, self.ind, S, deadline=self.deadline, optval=self.optval, lazy=self.lazy)

    def okay(self, a, rets):
        """(state, return instruction) where TI_OKAY was returned"""
        for s, t in rets:
            l = a.lin(t.ops[0])
            if l is None:
                continue
            for s0 in a.assume(s, ('eq', l)):
                yield s0, t

    def construct(self):
        """states of a new stream"""
        ents = self.entries()
        a = self.num('new', 'N')
        res = []
        for s, t in self.okay(a, a.run(ents)):
            a.recstack = [True]
            h = s.mem.get((('pstream',), 0))
            h = h[1:] if isinstance(h, tuple) and h[0] == 'p' else None
            if h is None or h[0][0] != 'heap' or h[1].const() != 0:
                a.ob('progress', t, 'stream', s, None, 'the object handed out is not resolved')
                continue
            s = rename_base(s, h[0], ('stream',))
            if s.mem.get(PC) != 'i':
                if s.mem.get(PC) is None and a.zeroed(s, *PC):
                    s = s.with_(p=s.p.add((PV, True)), mem=dict(s.mem, **{}) | {PC: 'i'})
                else:
                    a.ob('progress', t, 'initial progress', s, None, 'progress is not set')
                    continue
            for s1, st in self.start(s):
                a.recstack = [True]
                a.ob('progress', t, 'initial progress', s1, ('eq', PV + st) if st is not None else None, 'progress of a new stream against -start = -(%r)' % st)
            res.append(boundary(s))
        self.info['notes'] += sorted(a.notes)
        return res

    def call(self, a, S, size=None):
        """run call from the boundary state S: entry states"""
        cs = [(N, False), (P0 - PV, True)] + [(Lin.var('w%d' % k), True) for k in range(self.ind.nout)]
        if size is not None:
            cs.append((N - size, True))
        return S.with_(p=S.p.add(*cs))

    def phase(self, S):
        """partition by the sign of the progress counter"""
        key = frozenset(t for t in S.key if t[0] != 'P')
        r = []
        for lab, c in (('live', PV), ('warm', -PV - 1)):
            s = S.add((c, False))
            if not s.dead():
                r.append(s.with_(key=key | {('P', lab)}))
        return r

    def room(self, S):
        """elements the current call may write"""
        r = []
        for c, b in ((P0, N), (-P0 - 1, P0 + N)):
            s = S.add((c, False))
            if not s.dead():
                r.append((s, b))
        return r

    def finish(self, a, rets):
        """obligations at the end of a run call; boundary states"""
        out = []
        a.recstack = [True]
        for s, t in self.okay(a, rets):
            a.ob('progress', t, 'progress', s, ('eq', PV - P0 - N) if s.mem.get(PC) == 'i' else None, 'progress advances by size')
            for c, d in (((P0, False), N), ((-P0 - 1, False), P0 + N)):
                s1 = s.add(c)
                if s1.dead():
                    continue
                for k in range(self.ind.nout):
                    w = Lin.var('w%d' % k)
                    if ('gap', k) in s1.key:
                        y = Lin.var('y%d' % k)
                        a.ob('order', t, 'output %d' % k, s1, None, 'written out of order')
                        a.ob('count', t, 'output %d' % k, s1, ('ge', y - d), 'at most %r elements written, %r due' % (y, d))
                        continue
                    for s2 in a.assume(s1, ('ge', d)):
                        a.ob('count', t, 'output %d' % k, s2, ('eq', w - d), 'written elements against bars with progress >= 0: %r' % d)
                    for s2 in a.assume(s1, ('ge', -d - 1)):
                        a.ob('count', t, 'output %d' % k, s2, ('eq', w), 'nothing is due')
            out.append(s)
        return out

    def invariant(self):
        """states of a stream between calls"""
        init = []
        for s in self.construct():
            init += self.phase(s)
        a0 = self.num('run', '')
        J = lambda ss: a0.merge(a0.zero_materialise(ss))
        init = J(init)
        inv = {s.key: s for s in init}
        stat = hull([self.stat(s.p) for s in init]) if init else None
        it = 0
        a = self.num('run', '')
        while init:
            it += 1
            if it > 14:
                raise GiveUp('no fixpoint between calls')
            back = self.after(inv.values(), a)
            groups, changed = {}, False
            for s in back:
                groups.setdefault(s.key, []).append(s)
            for k, cand in groups.items():
                if k not in inv:
                    inv[k] = a0.joinall(cand)
                    changed = True
                    continue
                old = inv[k]
                cand = a0.zero_materialise([old] + cand)
                old, cand = cand[0], cand[1:]
                inv[k] = old
                mem = old.mem
                for s in cand:
                    mem = num.joinmem(mem, s.mem)
                if mem == old.mem and all(all(s.p.ge(Lin(c, dict(i))) and (not e or s.p.ge(-Lin(c, dict(i)))) for e, c, i in old.p.cons) for s in cand):
                    continue
                j = a0.joinall([old] + cand)
                if it >= 3:
                    p = widen(old.p, j.p, self.marks(old, j, a0)) if it < 9 else Poly([x for x in old.p.cons if j.p.ge(Lin(x[1], dict(x[2]))) and (not x[0] or j.p.ge(-Lin(x[1], dict(x[2]))))])
                    j = j.with_(p=p.meet(stat))
                inv[k] = j
                changed = True
            if not changed:
                break
        for _ in range(2):
            back = self.after(inv.values(), a)
            groups = {}
            for s in init + back:
                groups.setdefault(s.key, []).append(s)
            if any(k not in inv for k in groups):
                break
            new = {}
            for k, g in groups.items():
                j = a0.joinall(a0.zero_materialise(g))
                new[k] = j.with_(p=j.p.meet(inv[k].p).simplify(), mem=num.joinmem(j.mem, inv[k].mem) if j.mem != inv[k].mem else inv[k].mem)
            if len(new) == len(inv) and all(new[k].p.cons == inv[k].p.cons and new[k].mem == inv[k].mem for k in new):
                break
            inv = new
        return list(inv.values())

    def marks(self, old, j, a):
        return a.ranges(old.p, j.p) + [PV, -PV - 1, -PV]

    def stat(self, p):
        return p.eliminate([v for v in p.vars() if v[0] not in 'OFCtz' or v.startswith('z:vec.')]).simplify()

    def after(self, states, a):
        """boundary states after one more run call"""
        a.rets = []
        a.nrec = 1
        rets = self.quiet(a, [self.call(a, s) for s in states])
        r = []
        for s, t in self.okay(a, rets):
            for x in self.phase(boundary(s)):
                r.append(x.with_(exact=False))
        return a.merge(a.zero_materialise(r))

    def quiet(self, a, entry):
        """analyse without recording obligations"""
        a.rets = []
        a.mute = True
        try:
            return list(a.run(entry))
        finally:
            a.mute = False

    def prove(self):
        t0 = time.time()
        try:
            inv = self.invariant()
            a = self.num('run', '')
            a.room = self.room
            self.finish(a, a.run([self.call(a, s).with_(exact=False) for s in inv]))
            self.info['invariant'] = len(inv)
            self.inv = inv
            if not inv:
                self.info['gaveup'] = 'no stream is ever created'
            self.info['notes'] += sorted(a.notes)
        except GiveUp as e:
            self.info['gaveup'] = str(e)
        except RecursionError:
            self.info['gaveup'] = 'recursion'
        self.info['t'] = time.time() - t0
        return self.obs, self.info

    def trace(self, sizes):
        """one stream, calls of the given sizes, fixed options: abstract states after each"""
        t0 = time.time()
        try:
            cur = self.construct()
            for n in sizes:
                a = self.num('run', '')
                a.room = self.room
                out = self.finish(a, a.run([self.call(a, s, n) for s in cur]))
                cur = a.merge(a.zero_materialise([boundary(s) for s in out]))
                if not cur:
                    break
        except GiveUp as e:
            self.info['gaveup'] = str(e)
        except RecursionError:
            self.info['gaveup'] = 'recursion'
        self.info['t'] = time.time() - t0
        return self.obs, self.info


def option_vectors(ind, bad):
    vecs = []
    for _, o in contexts(bad, ind):
        if o not in vecs:
            vecs.append(o)
    for v in (2, 4, 1, 3):
        for g in GENERIC:
            o = tuple(Fraction(g(v, j)) for j in range(ind.nopt))
            if o not in vecs:
                vecs.append(o)
    return vecs[:14]


def decide(ctx, ind, kinds, timeout):
    st = Stream(ctx, ind, timeout)
    obs, info = st.prove()
    bad = {k: o for k, o in obs.items() if o.kind in kinds and o.status != 'proved'}
    if not info['gaveup'] and not bad:
        return 'proved', obs, info
    t0 = time.time()
    info['contexts'] = 0
    for o in option_vectors(ind, bad):
        c = around(ctx, ind, o)[0][0]          # start + 1 bars
        for sizes in ([c + 2, 1, 0, 3], [0] + [1] * (c + 3), [2, 1] * ((c + 4) // 2), [3] * ((c + 6) // 3), [max(c - 1, 0), 1, 1, 1]):
            if time.time() - t0 > timeout:
                return 'undecided', obs, info
            s2 = Stream(ctx, ind, min(10, timeout), narrow=o)
            o2, i2 = s2.trace(sizes)
            info['contexts'] += 1
            if [x for x in o2.values() if x.kind in kinds and x.status == 'violated']:
                info['at'] = (sizes, o)
                return 'violated', o2, info
    return 'undecided', obs, info
