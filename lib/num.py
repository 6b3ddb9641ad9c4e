"""Abstract interpretation of the flattened IR over convex integer polyhedra with trace partitioning.

State = polyhedron over integer quantities (series length, option values, loop counters, pointer offsets, integer
memory cells, ghost counters) + symbolic memory cells (pointers, option-valued doubles) + a partition key.
Bars are arbitrary: conditions on bar data take both branches.  Nothing is executed or sampled."""
import hashlib
import math
import os
import re
import time
from fractions import Fraction

import poly
from poly import Lin, Poly, hull, widen
from ssa import ALLOCS, opvars, operands

DATA = None          # a floating point value that is not a function of the options alone


class GiveUp(Exception):
    pass


class State:
    __slots__ = ('p', 'mem', 'key', 'exact')

    def __init__(self, p, mem, key=frozenset(), exact=True):
        self.p, self.mem, self.key, self.exact = p, mem, key, exact

    def with_(self, p=None, mem=None, key=None, exact=None):
        return State(self.p if p is None else p, self.mem if mem is None else mem, self.key if key is None else key,
                     self.exact if exact is None else exact)

    def add(self, *cs):
        return self.with_(p=self.p.add(*cs))

    def dead(self):
        return self.p.empty()


def cellvar(base, off):
    return 'c:' + '.'.join(str(x) for x in base) + ':' + str(off)


def hasvar(v):
    """memory cell with a numeric variable: an integer, or a pointer at a variable offset"""
    return v == 'i' or isinstance(v, tuple) and v[0] == 'pv'


def joinmem(a, b):
    if a is b or a == b:
        return a
    r = {}
    gate = joingate(a, b)
    for k, v in a.items():
        if k in b and b[k] == v:
            r[k] = v
        elif k[0] in SHADOW:
            w = joinshadow(k, v, b.get(k), gate)
            if w is not None:
                r[k] = w
        elif isinstance(k[1], int):
            r[k] = 'x'          # a memory cell: unknown content from here on
    for k in b:
        if k not in r:
            if k[0] in SHADOW:
                if k not in a:
                    w = joinshadow(k, b[k], None, gate)
                    if w is not None:
                        r[k] = w
            elif isinstance(k[1], int):
                r[k] = 'x'
    return r


SHADOW = {'sh', 'sc', 'so', 'sa', 'sx', 'pc', 'rc', 'rb'}          # entries of shadow.Shadow


def joingate(a, b):
    """condition under which the first of two joined states is the one"""
    x, y = a.get(('rc', '')), b.get(('rc', ''))
    if x is None or y is None or x == y:
        return None
    import vals
    p = vals.mul(x, y)
    return x if p is not None and not p.m else None


def joinshadow(k, v, w, gate):
    if k[0] in ('sa', 'sx'):
        return True
    if k[0] == 'pc':
        return v | (w or 0)
    if k[0] == 'rb':
        return None
    import vals
    if k[0] == 'rc':
        return vals.add(v, w) if gate is not None and w is not None else None
    if w is None:
        return v if k[0] == 'sh' else (0, 1, None)
    return (v[0] & w[0], v[1] | w[1], v[2] if v[2] == w[2] else vals.choose(gate, v[2], w[2]))


# ------------------------------------------------------------------ FP normal form: s*r_k + Lin + f, 0 <= f < 1
class FPA:
    __slots__ = ('s', 'k', 'l', 'f')

    def __init__(self, s, k, l, f=Fraction(0)):
        self.s, self.k = s, (k if s else None)
        w = math.floor(f)
        self.l, self.f = l + int(w) if w else l, f - w

    def neg(self):
        return FPA(-self.s, self.k, -self.l, -self.f)

    def add(self, o):
        if self.s and o.s:
            if self.k == o.k and self.s == -o.s:
                return FPA(0, None, self.l + o.l, self.f + o.f)
            return None
        return FPA(self.s or o.s, self.k if self.s else o.k, self.l + o.l, self.f + o.f)

    def key(self):
        return ('A', self.s, self.k, self.l.key(), self.f)


# formulas: ('ge', Lin) ('eq', Lin) ('ne', Lin) ('and', a, b) ('or', a, b) ('T',) ('F',) ('any',) ('st', key, bool)
T, F_, ANY, UNK = ('T',), ('F',), ('any',), ('unk',)     # any: bar data decide, unk: something not tracked does


def f_not(f):
    k = f[0]
    if k == 'ge':
        return ('ge', -f[1] - 1)
    if k == 'eq':
        return ('ne', f[1])
    if k == 'ne':
        return ('eq', f[1])
    if k == 'and':
        return ('or', f_not(f[1]), f_not(f[2]))
    if k == 'or':
        return ('and', f_not(f[1]), f_not(f[2]))
    if k == 'T':
        return F_
    if k == 'F':
        return T
    if k == 'st':
        return ('st', f[1], not f[2])
    return f


def f_simpl(k, a, b):
    if k == 'and':
        if a == F_ or b == F_:
            return F_
        if a == T:
            return b
        if b == T:
            return a
    else:
        if a == T or b == T:
            return T
        if a == F_:
            return b
        if b == F_:
            return a
    return (k, a, b)


def f_lins(f):
    if f[0] in ('ge', 'eq', 'ne'):
        yield f[1]
    elif f[0] in ('and', 'or'):
        yield from f_lins(f[1])
        yield from f_lins(f[2])


def f_atoms(f):
    if f[0] in ('and', 'or'):
        yield from f_atoms(f[1])
        yield from f_atoms(f[2])
    else:
        yield f


class Ob:
    """an obligation: aggregated over all states in which its program point is reached"""
    __slots__ = ('kind', 'where', 'what', 'status', 'detail', 'n', 'bad')

    def __init__(self, kind, where, what):
        self.kind, self.where, self.what = kind, where, what
        self.status, self.detail, self.n, self.bad = 'proved', '', 0, []


RANK = {'proved': 0, 'unknown': 1, 'violated': 2}

MAXSTATES = 48
TIMEOUT = float(os.environ.get('NUM_TIMEOUT', '60'))


class Num:
    """analysis of one function in a given entry context"""

    APART = False
    KEEP = 8            # states of one key kept apart in a narrow context

    def __init__(self, fn, kind, ind, prefix='', obs=None, deadline=None, hooks=None):
        self.fn, self.kind, self.ind = fn, kind, ind
        self.pre = prefix                      # namespace of SSA variables
        self.obs = obs if obs is not None else {}
        self.roles = {'start': ['opt'], 'plain': ['size', 'ins', 'opt', 'outs'], 'ref': ['size', 'ins', 'opt', 'outs'],
                      'new': ['opt', 'pstream'], 'run': ['stream', 'size', 'ins', 'outs'], 'free': ['stream']}[kind]
        self.argrole = {a: r for a, r in zip(fn.args, self.roles)}
        self.deadline = deadline or time.time() + TIMEOUT
        self.exacting = False
        self.recstack = [True]
        self.rets = []
        self.static = {'n', 'p0'}
        self.memo_lin, self.memo_fp, self.memo_base = {}, {}, {}
        self.memo_same = {}
        self.terms = {}
        self.hooks = hooks
        self.notes = set()
        self.mute = False                      # no obligations, results only
        self.narrow = False                    # one size and one option vector: loops are unrolled, gaps in outputs followed
        self.room = None                       # S -> [(state, number of elements promised on each output)]
        self.esplit = False
        self.lazy = ()                         # options whose sign is not part of the partition
        self.optval = None                     # fixed option values (a narrower entry context)
        self.loopinfo = {}
        heads = {}
        for l in fn.loops:
            heads.setdefault(l['header'], set()).update(l['blocks'])
        self.heads = heads
        self.order = fn.rpo()
        self.rponum = {b: k for k, b in enumerate(self.order)}
        self.innermost = {}
        for b in range(len(fn.blocks)):
            best = None
            for h, bl in heads.items():
                if b in bl and (best is None or len(bl) < len(heads[best])):
                    best = h
            self.innermost[b] = best
        self.live = None
        self.compute_live()
        self.compute_relevant()

    # ------------------------------------------------------------ integers that can influence addresses or control
    def compute_relevant(self):
        """integers that only feed arithmetic on bar data need not be tracked"""
        fn = self.fn
        work, rel = [], set()

        def add(o):
            for v in opvars(o):
                if v not in rel:
                    rel.add(v)
                    work.append(v)
        for i in fn.all():
            if i.op in ('br', 'switch', 'ret', 'icmp'):
                for o in i.ops:
                    add(o)
            elif i.op == 'store':
                add(i.ops[1])
                if i.vty != 'double':
                    add(i.ops[0])
                else:
                    add(i.ops[0])
            elif i.op == 'load':
                add(i.ops[0])
            elif i.op in ('call', 'invoke'):
                n = i.callee or ''
                if not (n.startswith('llvm.') and i.ty == 'double') and n not in PUREMATH:
                    for o in i.ops:
                        add(o)
        while work:
            v = work.pop()
            i = fn.defs.get(v)
            if i is None:
                continue
            # a floating point value matters only when it is a function of the options
            if i.ty == 'double' and i.op != 'load' and not self.maybe_static(v):
                continue
            for o in operands(i):
                add(o)
        self.relevant = rel

    def fix_options(self, vals):
        self.optval = vals
        self.memo_fp.clear()
        self.memo_lin.clear()
        self.loopinfo.clear()

    def maybe_static(self, v):
        t = self.fp(['v', v])
        return t is not DATA

    # ------------------------------------------------------------ liveness of base variables
    def compute_live(self):
        fn = self.fn
        nb = len(fn.blocks)
        use, df = [set() for _ in range(nb)], [set() for _ in range(nb)]
        phiuse = [set() for _ in range(nb)]
        for b, bl in enumerate(fn.blocks):
            for i in bl:
                if i.op == 'phi':
                    df[b].add(i.id)
                    for pb, o in i.ops:
                        phiuse[pb].update(opvars(o))
                    continue
                for o in operands(i):
                    for v in opvars(o):
                        if v not in df[b]:
                            use[b].add(v)
                df[b].add(i.id)
        livein = [set() for _ in range(nb)]
        ch = True
        while ch:
            ch = False
            for b in reversed(self.order):
                out = set(phiuse[b])
                for s in fn.succs[b]:
                    out |= livein[s]
                x = use[b] | (out - df[b])
                if x != livein[b]:
                    livein[b] = x
                    ch = True
        self.livein = livein
        self.liveout = []
        for b in range(nb):
            o = set(phiuse[b])
            for s in fn.succs[b]:
                o |= livein[s]
            self.liveout.append(o)
        self._basecl = {}

    def basevars(self, v, seen=None):
        """base variables the value of SSA id v may be expressed over"""
        r = self._basecl.get(v)
        if r is not None:
            return r
        top = seen is None
        seen = seen or set()
        if v in seen:
            return {self.vn(v)}
        seen.add(v)
        r = {self.vn(v)}
        i = self.fn.defs.get(v)
        if i is not None and i.op not in ('phi', 'load', 'call', 'invoke'):
            for o in operands(i):
                for u in opvars(o):
                    r |= self.basevars(u, seen)
        if top:
            self._basecl[v] = r
        return r

    def kill_dead(self, S, b):
        """forget SSA variables that are dead on entry to block b"""
        liv = set()
        for v in self.livein[b]:
            liv |= self.basevars(v)
        for i in self.fn.blocks[b]:
            if i.op != 'phi':
                break
            liv.add(self.vn(i.id))
        dead = [v for v in S.p.vars() if v.startswith(self.pre + 'v') and v not in liv]
        mem = S.mem
        if dead:
            S = S.with_(p=S.p.eliminate(dead))
        # partition tags of dead pointer selectors
        kt = [t for t in S.key if t[0] == 'p' and self.vn(t[1]) not in liv]
        if kt:
            S = S.with_(key=S.key - frozenset(kt))
        return S

    def vn(self, v):
        return '%sv%d' % (self.pre, v)

    # ------------------------------------------------------------ expressions
    def lin(self, o):
        """operand -> Lin over base variables, or None"""
        if o[0] == 'c':
            return Lin(o[1])
        if o[0] in ('undef', 'zero', 'null'):
            return Lin(0) if o[0] != 'undef' else None
        if o[0] != 'v':
            return None
        v = o[1]
        if v in self.memo_lin:
            return self.memo_lin[v]
        self.memo_lin[v] = Lin.var(self.vn(v))   # cycle guard
        r = self._lin(v)
        self.memo_lin[v] = r
        return r

    def _lin(self, v):
        if v in self.argrole:
            return Lin.var('n') if self.argrole[v] == 'size' else None
        i = self.fn.defs[v]
        me = Lin.var(self.vn(v))
        op = i.op
        if op in ('sext', 'zext', 'trunc', 'freeze'):
            src = i.ops[0]
            if src[0] == 'v' and src[1] in self.fn.defs and self.fn.defs[src[1]].ty == 'i1':
                return me
            l = self.lin(src)
            return l if l is not None else me
        if op in ('add', 'sub'):
            a, b = self.lin(i.ops[0]), self.lin(i.ops[1])
            if a is None or b is None:
                return me
            return a + b if op == 'add' else a - b
        if op == 'mul':
            a, b = self.lin(i.ops[0]), self.lin(i.ops[1])
            if a is not None and b is not None:
                if a.const() is not None:
                    return b * a.c
                if b.const() is not None:
                    return a * b.c
            k = self.static_key(i)
            return Lin.var(self.tname(k)) if k else me
        if op in ('sdiv', 'udiv'):
            k = self.static_key(i)
            return Lin.var(self.tname(k)) if k else me
        if op == 'srem':
            k = self.static_key(i)
            return self.lin(i.ops[0]) - Lin.var(self.tname(k)) * k[1] if k else me
        if op == 'shl' and i.ops[1][0] == 'c':
            a = self.lin(i.ops[0])
            return a * (1 << i.ops[1][1]) if a is not None else me
        if op == 'extractvalue':
            src = i.ops[0]
            d = self.fn.defs.get(src[1]) if src[0] == 'v' else None
            if d is not None and d.op == 'call' and d.callee and '.with.overflow' in d.callee and i.idx == [0]:
                a, b = self.lin(d.ops[0]), self.lin(d.ops[1])
                if a is not None and b is not None:
                    if '.umul' in d.callee or '.smul' in d.callee:
                        if b.const() is not None:
                            return a * b.c
                        if a.const() is not None:
                            return b * a.c
                    elif 'add' in d.callee:
                        return a + b
                    elif 'sub' in d.callee:
                        return a - b
            return me
        if op == 'ptrtoint':
            pt = self.ptr(i.ops[0], None)
            if pt:
                return pt[1] + Lin.var('@' + '.'.join(str(x) for x in pt[0]))
            return me
        if op == 'fptosi' or op == 'fptoui':
            t = self.fp(i.ops[0])
            if isinstance(t, FPA) and t.s == 1 and t.l == Lin(0) and t.f == 0 and not getattr(self, 'opaque_opts', False):
                return Lin.var('O%s' % t.k)
            if isinstance(t, FPA) and not t.s and t.f == 0:
                return t.l
            if isinstance(t, FPA) and not t.s and not t.l.t:
                return Lin(math.trunc(t.l.c + t.f))
            k = self.static_key(i)
            return Lin.var(self.tname(k)) if k else me
        if op == 'load' and i.ty in ('i32', 'i64', 'i16', 'i8'):
            return me
        return me

    def static_key(self, i):
        """identity of an integer that depends on constant quantities only: all its occurrences share a variable"""
        if i.op in ('fptosi', 'fptoui'):
            t = self.fp(i.ops[0])
            if t is DATA or isinstance(t, FPA) or _has_mem(t) or not self.term_static(t):
                return None
            return ('int', self.tkey(t))
        a, b = self.lin(i.ops[0]), self.lin(i.ops[1])
        if a is None or b is None or not a.t or not self.is_static(a) or not self.is_static(b):
            return None
        if i.op == 'srem' and not (b.const() is not None and b.c > 0):
            return None
        if i.op in ('sdiv', 'udiv', 'srem'):
            c = b.const()
            if c is not None:
                return ('q', c) + a.key() if c > 0 else None
            return ('sdiv', a.key(), b.key())
        if i.op == 'mul' and b.t:
            return ('mul',) + tuple(sorted((a.key(), b.key())))
        return None

    def tname(self, key):
        return ('tq' if key[0] == 'q' else 't') + hashlib.md5(repr(key).encode()).hexdigest()[:8]

    def is_static(self, l):
        return all(v in self.static or v[0] in 'OFCt' for v in l.t)

    def fp(self, o):
        """floating point operand -> FPA | hashable opaque option-only term | DATA"""
        if o[0] == 'f':
            x = float.fromhex(o[1]) if 'x' in o[1] else float(o[1])
            if x != x or abs(x) > 1e15:
                return ('k', o[1])
            return FPA(0, None, Lin(0), Fraction(x))
        if o[0] == 'c':
            return FPA(0, None, Lin(o[1]))
        if o[0] in ('zero',):
            return FPA(0, None, Lin(0))
        if o[0] != 'v':
            return DATA
        v = o[1]
        if v in self.memo_fp:
            return self.memo_fp[v]
        self.memo_fp[v] = DATA
        r = self._fp(v)
        self.memo_fp[v] = r
        return r

    def optload(self, i):
        """(k) when i loads options[k]"""
        p = self.ptr(i.ops[0], None)
        if p and p[0] == ('opt',):
            c = p[1].const()
            if c is not None and c % 8 == 0 and 0 <= c < 8 * self.ind.nopt:
                return c // 8
        return None

    def tkey(self, t):
        return t.key() if isinstance(t, FPA) else t

    def _fp(self, v):
        i = self.fn.defs.get(v)
        if i is None:
            return DATA
        op = i.op
        if op == 'load':
            k = self.optload(i)
            if k is not None:
                return FPA(0, None, Lin(0), self.optval[k]) if self.optval is not None and 0 <= k < len(self.optval) else FPA(1, k, Lin(0))
            return ('mem', v)     # resolved per state (stream cells); see fpS
        if op in ('sitofp', 'uitofp'):
            l = self.lin(i.ops[0])
            if l is not None and self.is_static(l):
                return FPA(0, None, l)
            return FPA(0, None, l) if l is not None else DATA
        if op in ('fadd', 'fsub', 'fmul', 'fdiv', 'fneg', 'frem'):
            return self.fparith(op, [self.fp(o) for o in i.ops])
        if op in ('fpext', 'fptrunc', 'freeze'):
            return self.fp(i.ops[0])
        if op in ('call', 'invoke') and i.callee:
            n = i.callee
            if n.startswith('llvm.') or n in PUREMATH:
                ts = [self.fp(o) for o in i.ops if o[0] in ('v', 'f')]
                if any(t is DATA for t in ts):
                    return DATA
                n = n.replace('llvm.', '').replace('.f64', '')
                if n in ('fmuladd', 'fma'):
                    return self.fparith('fadd', [self.fparith('fmul', ts[:2]), ts[2]])
                r = const_fold(n, ts)
                return r if r is not None else ('call', n) + tuple(self.tkey(t) for t in ts)
        return DATA

    def fparith(self, op, ts):
        if any(t is DATA for t in ts):
            return DATA
        if all(isinstance(t, FPA) for t in ts):
            if op == 'fneg':
                return ts[0].neg()
            if op in ('fadd', 'fsub'):
                r = ts[0].add(ts[1] if op == 'fadd' else ts[1].neg())
                if r is not None:
                    return r
            if op == 'fmul':
                for a, b in ((ts[0], ts[1]), (ts[1], ts[0])):
                    if not a.s and not a.l.t:
                        c = a.l.c + a.f
                        if c == 1:
                            return b
                        if c == -1:
                            return b.neg()
                        if not b.s and c.denominator == 1 and b.f == 0:
                            return FPA(0, None, b.l * int(c))
            if op == 'fdiv' and not ts[1].s and not ts[1].l.t:
                c = ts[1].l.c + ts[1].f
                if c == 1:
                    return ts[0]
                if c and not ts[0].s and not ts[0].l.t:
                    return FPA(0, None, Lin(0), (ts[0].l.c + ts[0].f) / c)
        r = const_fold(op, ts)
        return r if r is not None else (op,) + tuple(self.tkey(t) for t in ts)

    def term_static(self, t):
        if isinstance(t, FPA):
            return self.is_static(t.l)
        return _term_static(t, self)

    # a term with ('mem', v) leaves, resolved in a state
    def fpS(self, o, S):
        t = self.fp(o)
        return self.resolve(t, S)

    def resolve(self, t, S):
        if t is DATA or isinstance(t, FPA):
            return t
        if isinstance(t, tuple):
            if t and t[0] == 'mem':
                r = S.mem.get(('fl', self.pre, t[1]), DATA)
                return r
            if not _has_mem(t):
                return t
            return _rebuild(t, self, S)
        return t

    # ------------------------------------------------------------ pointers
    def ptr(self, o, S):
        """operand -> (base, byte offset Lin) or None.  Without a state only what holds in every state."""
        if o[0] == 'null':
            return (('null',), Lin(0))
        if o[0] == 'g':
            return (('g', o[1]), Lin(0))
        if o[0] == 'gep':
            return self._gep(o, S)
        if o[0] != 'v':
            return None
        v = o[1]
        if v in self.argrole:
            r = self.argrole[v]
            return ((r,), Lin(0)) if r != 'size' else None
        i = self.fn.defs[v]
        op = i.op
        if op == 'getelementptr':
            return self._gep(i.gep, S)
        if op in ('bitcast', 'freeze', 'addrspacecast'):
            return self.ptr(i.ops[0], S)
        if op == 'alloca':
            return (('alloca', self.pre + str(v)), Lin(0))
        if op in ('call', 'invoke') and i.callee in ALLOCS:
            return (('heap', self.pre + str(v)), Lin(0))
        if op in ('call', 'invoke') and i.callee and self.is_vec(i) in ('ix', 'data', 'begin', 'end', 'front', 'back', 'find'):
            return self.vecptr(i, S)
        if op in ('call', 'invoke') and i.callee and self.is_iter(i):
            return self.iterptr(i, S)
        if op == 'load':
            p = self.ptr(i.ops[0], S if S is not None else None)
            if p and p[0] in (('ins',), ('outs',)):
                c = p[1].const()
                if c is not None and c % 8 == 0:
                    return (('in' if p[0] == ('ins',) else 'out', c // 8), Lin(0))
                return None
            if S is not None:
                x = S.mem.get(('pl', self.pre, v))
                return x
            return None
        if op in ('phi', 'select'):
            bs = self.bases(v)
            bs = {b for b in bs if b != ('null',)} or bs
            if len(bs) == 1:
                b = next(iter(bs))
                if b is None:
                    return None
                c = self.samebase(v)
                return (b, Lin(c) if c is not None else Lin(0, {self.vn(v): 8}))
            if S is not None:
                for t in S.key:
                    if t[0] == 'p' and t[1] == v and t[3] == self.pre:
                        return (t[2], Lin(0, {self.vn(v): 8})) if t[2] is not None else None
            return None
        return None

    def _gep(self, g, S):
        p = self.ptr(g[1], S)
        if p is None:
            return None
        off = p[1] + g[2]
        for v, k in g[3]:
            l = self.lin(v)
            if l is None:
                return None
            off = off + l * k
        return (p[0], off)

    def samebase(self, v):
        """constant offset of a pointer phi/select that is one object or null"""
        if v in self.memo_same:
            return self.memo_same[v]
        self.memo_same[v] = None
        i = self.fn.defs[v]
        offs = set()
        for o in ([o for _, o in i.ops] if i.op == 'phi' else i.ops[1:]):
            p = self.ptr(o, None)
            if p is None or (p[0] != ('null',) and p[1].const() is None):
                offs.add(None)
            elif p[0] != ('null',):
                offs.add(p[1].const())
        self.memo_same[v] = next(iter(offs)) if len(offs) == 1 else None
        return self.memo_same[v]

    def bases(self, v, seen=None):
        """static set of bases of a pointer phi/select (None = unknown)"""
        if v in self.memo_base:
            return self.memo_base[v]
        top = seen is None
        seen = seen if seen is not None else set()
        if v in seen:
            return set()
        seen.add(v)
        i = self.fn.defs[v]
        ops = [o for _, o in i.ops] if i.op == 'phi' else i.ops[1:]
        r = set()
        for o in ops:
            root = o
            while True:
                if root[0] == 'gep':
                    root = root[1]
                elif root[0] == 'v' and root[1] in self.fn.defs and self.fn.defs[root[1]].op == 'getelementptr':
                    root = self.fn.defs[root[1]].gep[1]
                else:
                    break
            if root[0] == 'v' and root[1] in self.fn.defs and self.fn.defs[root[1]].op in ('phi', 'select') and self.fn.defs[root[1]].ty == 'ptr':
                r |= self.bases(root[1], seen)
            else:
                p = self.ptr(root, None)
                if p is None and root[0] == 'undef':
                    continue
                r.add(p[0] if p else None)
        if top:
            self.memo_base[v] = r
        return r

    # ------------------------------------------------------------ std::vector<double>
    def is_vec(self, i):
        """what a call on a standard container of doubles does, or None"""
        n = i.callee or ''
        m = CONTRE.match(n)
        if not m:
            return None
        fam, m = m.group(1), m.group(2)
        for pre, k in (('ixEm', 'ix'), ('2atEm', 'ix'), ('4dataEv', 'data'), ('5beginEv', 'begin'), ('3endEv', 'end'), ('5frontEv', 'front'), ('4backEv', 'back'),
                       ('4sizeEv', 'size'), ('5emptyEv', 'empty'), ('6resizeEm', 'resize'), ('6assignEm', 'assign'), ('9push_backE', 'push'), ('10push_frontE', 'push'),
                       ('4pushE', 'push'), ('12emplace_back', 'push'), ('13emplace_front', 'push'), ('8pop_backEv', 'pop'), ('9pop_frontEv', 'pop'), ('3popEv', 'pop'),
                       ('5clearEv', 'clear'), ('7reserveEm', 'reserve'), ('D2Ev', 'dtor'), ('D1Ev', 'dtor')):
            if m.startswith(pre):
                return k
        if re.match(r'C[12](IS\d*_vE)?Ev$', m):
            return 'ctor0'
        if re.match(r'C[12]EmRK', m):
            return 'ctor'
        if fam.startswith('8multiset'):
            if m in ('6insertERKd', '6insertEOd') or m.startswith('7emplaceI'):
                return 'push'
            if m.startswith('5erase') and 'iterator' in m:
                return 'erase'
            if m == '4findERKd':
                return 'find'
        return 'other'

    def is_iter(self, i):
        """operation of a tree iterator: next | deref | incr"""
        n = i.callee or ''
        if n.startswith('_ZSt4nextISt') and 'Rb_tree' in n:
            return 'next'
        if n.startswith('_ZNKSt23_Rb_tree_const_iteratorIdEde') or n.startswith('_ZNKSt17_Rb_tree_iteratorIdEde'):
            return 'deref'
        if n.startswith('_ZNSt23_Rb_tree_const_iteratorIdEppEv') or n.startswith('_ZNSt17_Rb_tree_iteratorIdEppEv'):
            return 'incr'
        return None

    def vecbase(self, i, S):
        p = self.ptr(i.ops[0], S)
        c = p and p[1].const()
        if p and c is None and S is not None:
            c = self.fixed(S, p[1])
        if c is None:
            return None
        return ('vec', '.'.join(str(x) for x in p[0]) + '@' + str(c))

    def vecptr(self, i, S):
        base = self.vecbase(i, S)
        if base is None:
            return None
        k = self.is_vec(i)
        if k == 'ix':
            l = self.lin(i.ops[1])
            return (base, l * 8) if l is not None else None
        if k in ('end', 'back', 'find'):         # where it was when the call was made
            return (base, Lin(0, {self.vn(i.id): 8}))
        return (base, Lin(0))

    def iterptr(self, i, S):
        k = self.is_iter(i)
        if k == 'next':
            p = self.ptr(i.ops[0], S)
            return (p[0], Lin(0, {self.vn(i.id): 8})) if p and p[0][0] == 'vec' else None
        if k == 'deref' and S is not None:
            return S.mem.get(('pl', self.pre, i.id))
        return None

    # ------------------------------------------------------------ conditions
    def cond(self, o, S):
        if o[0] == 'c':
            return T if o[1] else F_
        if o[0] != 'v' or o[1] not in self.fn.defs:
            return UNK
        i = self.fn.defs[o[1]]
        op = i.op
        if op == 'icmp':
            a, b = i.ops
            if self._isptr(a) or self._isptr(b):
                return self.ptrcmp(i, S)
            for x, y in ((a, b), (b, a)):       # zext of a boolean compared to a constant
                if x[0] == 'v' and x[1] in self.fn.defs and self.fn.defs[x[1]].op in ('zext', 'sext') and y == ['c', 0] and i.pred in ('ne', 'eq'):
                    s = self.fn.defs[x[1]].ops[0]
                    if s[0] == 'v' and s[1] in self.fn.defs and self.fn.defs[s[1]].ty == 'i1':
                        f = self.cond(s, S)
                        return f if i.pred == 'ne' else f_not(f)
            if self._isbool(a) and i.pred in ('eq', 'ne'):
                fa, fb = self.cond(a, S), self.cond(b, S)
                if fb in (T, F_):
                    pos = (fb == T) == (i.pred == 'eq')
                    return fa if pos else f_not(fa)
                return UNK
            la, lb = self.lin(a), self.lin(b)
            if la is None or lb is None:
                return UNK
            d = la - lb
            pr = i.pred
            if pr[0] == 'u':
                if S is not None and S.p.ge(la) and S.p.ge(lb):
                    pr = 's' + pr[1:]
                elif S is not None and S.p.ge(lb):      # a may be negative: a huge unsigned value then
                    pos = {'ult': ('and', ('ge', la), ('ge', -d - 1)), 'ule': ('and', ('ge', la), ('ge', -d)),
                           'ugt': ('or', ('ge', -la - 1), ('ge', d - 1)), 'uge': ('or', ('ge', -la - 1), ('ge', d))}
                    return pos[pr]
                else:
                    return UNK
            return self.intcmp(pr, d)
        if op == 'fcmp':
            return self.fcmp(i, S)
        if op == 'xor' and i.ops[1] == ['c', 1]:
            return f_not(self.cond(i.ops[0], S))
        if op in ('and', 'or') and i.ty == 'i1':
            return f_simpl(op, self.cond(i.ops[0], S), self.cond(i.ops[1], S))
        if op == 'select':
            c, a, b = i.ops
            if b == ['c', 0]:
                return f_simpl('and', self.cond(c, S), self.cond(a, S))
            if a == ['c', 1]:
                return f_simpl('or', self.cond(c, S), self.cond(b, S))
            fc, fa, fb = self.cond(c, S), self.cond(a, S), self.cond(b, S)
            return f_simpl('or', f_simpl('and', fc, fa), f_simpl('and', f_not(fc), fb))
        if op == 'freeze':
            return self.cond(i.ops[0], S)
        if op == 'trunc':
            return UNK
        if op == 'extractvalue':
            src = i.ops[0]
            d = self.fn.defs.get(src[1]) if src[0] == 'v' else None
            if d is not None and d.op == 'call' and d.callee and d.callee.startswith('llvm.umul.with.overflow') and i.idx == [1]:
                a = self.lin(d.ops[0])
                if a is not None:
                    return ('ge', -a - 1)
            return UNK
        if op in ('call', 'invoke') and self.is_vec(i) == 'empty':
            base = self.vecbase(i, S)
            if base is not None and S is not None and self.objsize(base, S) is not None:
                return ('eq', self.objsize(base, S))
            return UNK
        if op == 'phi' and i.ty == 'i1':
            return ('ne', Lin.var(self.vn(i.id)))
        return UNK

    @staticmethod
    def intcmp(pr, d):
        return {'eq': ('eq', d), 'ne': ('ne', d), 'slt': ('ge', -d - 1), 'sle': ('ge', -d), 'sgt': ('ge', d - 1), 'sge': ('ge', d)}[pr]

    def _isptr(self, o):
        if o[0] in ('null', 'g', 'gep', 'fn'):
            return True
        if o[0] == 'v':
            if o[1] in self.fn.defs:
                return self.fn.defs[o[1]].ty == 'ptr'
            return self.argrole.get(o[1]) != 'size'
        return False

    def _isbool(self, o):
        return o[0] == 'v' and o[1] in self.fn.defs and self.fn.defs[o[1]].ty == 'i1'

    def ptrcmp(self, i, S):
        a, b = i.ops
        if b[0] == 'null' or a[0] == 'null':
            x = a if b[0] == 'null' else b
            if x[0] == 'null':
                isnull = True
            else:
                isnull = self.isnull(x, S)
            if isnull is None:
                return UNK
            r = isnull == (i.pred == 'eq')
            return T if r else F_
        pa, pb = self.ptr(a, S), self.ptr(b, S)
        if pa and pb and pa[0] == pb[0]:
            pr = i.pred
            if pr[0] == 'u':
                pr = 's' + pr[1:]
            return self.intcmp(pr, pa[1] - pb[1])
        return UNK

    def isnull(self, x, S):
        """True/False/None"""
        if S is None:
            return None
        root = x
        if root[0] == 'v' and root[1] in self.fn.defs:
            d = self.fn.defs[root[1]]
            if d.op in ('call', 'invoke') and d.callee in ALLOCS:
                for t in S.key:
                    if t[0] == 'm' and t[1] == self.pre + str(d.id):
                        return not t[2]
                return None if d.callee in ('malloc', 'calloc', 'realloc') or 'nothrow' in d.callee else False
            if d.op in ('phi', 'select'):
                for t in S.key:
                    if t[0] == 'p' and t[1] == d.id and t[3] == self.pre:
                        if t[2] is None:
                            return None
                        return t[2] == ('null',)
                bs = self.bases(d.id)
                if bs == {('null',)}:
                    return True
                if None in bs or ('null',) in bs:
                    return None
                return False
            if d.op == 'load':
                p = S.mem.get(('pl', self.pre, d.id))
                if p:
                    return self.heapnull(p[0], S)
                return None
        p = self.ptr(x, S)
        if p is None:
            return None
        return self.heapnull(p[0], S)

    def heapnull(self, base, S):
        if base == ('null',):
            return True
        if base[0] == 'heap':
            for t in S.key:
                if t[0] == 'm' and t[1] == base[1]:
                    return not t[2]
            return None
        return False

    def fcmp(self, i, S):
        pr = i.pred
        if pr in ('true', 'false'):
            return T if pr == 'true' else F_
        a, b = (self.fpS(o, S) if S is not None else self.fp(o) for o in i.ops)
        if a is DATA or b is DATA or pr in ('uno', 'ord'):
            if pr in ('uno', 'ord') and a is not DATA and b is not DATA:
                return F_ if pr == 'uno' else T     # options are numbers
            return ANY
        rel = pr[1:]
        if isinstance(a, FPA) and isinstance(b, FPA):
            d = a.add(b.neg())
            if d is not None:
                f = self.fpsign(d, rel)
                if f is not None:
                    return f
            elif S is not None and a.s == b.s == 1 and a.f == b.f == 0 and self.integral(S, a.k) and self.integral(S, b.k):
                l = Lin.var('O%s' % a.k) + a.l - Lin.var('O%s' % b.k) - b.l
                return self.intcmp({'lt': 'slt', 'le': 'sle', 'gt': 'sgt', 'ge': 'sge', 'eq': 'eq', 'ne': 'ne'}[rel], l)
        if S is None:
            return UNK
        if not (self.term_static(a) and self.term_static(b)):
            return UNK
        ka, kb = self.tkey(a), self.tkey(b)
        if rel in ('gt', 'ge'):
            ka, kb = kb, ka
            rel = {'gt': 'lt', 'ge': 'le'}[rel]
        if rel == 'le':
            return ('st', ('lt', kb, ka), False)
        if rel == 'lt':
            return ('st', ('lt', ka, kb), True)
        k = ('eq',) + tuple(sorted((ka, kb), key=repr))
        return ('st', k, rel == 'eq')

    def integral(self, S, k):
        for t in S.key:
            if t[0] == 'o' and t[1] == k:
                return t[2]
        d = Lin.var('O%s' % k) - Lin.var('F%s' % k)
        c = Lin.var('C%s' % k) - Lin.var('F%s' % k)
        return S.p.ge(-c) or (S.p.ge(d) and S.p.ge(-d))

    def order_facts(self, S, ka, kb, less):
        """integer consequences of r_a + l_a < r_b + l_b (less) or of its negation"""
        if not (ka[0] == kb[0] == 'A' and ka[1] == kb[1] == 1 and ka[4] == kb[4] == 0):
            return S
        la, lb = (Lin(k[3][0], dict(k[3][1])) for k in (ka, kb))
        if not less:
            ka, kb, la, lb = kb, ka, lb, la
        for c in 'FC':
            S = S.add((Lin.var('%s%s' % (c, kb[2])) + lb - Lin.var('%s%s' % (c, ka[2])) - la, False))
        return S

    def fpsign(self, d, rel):
        """d rel 0"""
        if d.s == 0:
            l = d.l
            if d.f == 0:
                return self.intcmp({'lt': 'slt', 'le': 'sle', 'gt': 'sgt', 'ge': 'sge', 'eq': 'eq', 'ne': 'ne'}[rel], l)
            return {'lt': ('ge', -l - 1), 'le': ('ge', -l - 1), 'gt': ('ge', l), 'ge': ('ge', l), 'eq': F_, 'ne': T}[rel]
        if d.f != 0:
            # s*r + L + f  (0<f<1): bounds through floor/ceil are not exact; only decide what is implied
            return None
        s, k, l = d.s, d.k, d.l
        Fv, Cv = Lin.var('F%s' % k), Lin.var('C%s' % k)
        if s < 0:
            rel = {'lt': 'gt', 'le': 'ge', 'gt': 'lt', 'ge': 'le', 'eq': 'eq', 'ne': 'ne'}[rel]
            l = -l
        m = -l          # r rel m
        if rel == 'lt':
            return ('ge', m - Fv - 1)
        if rel == 'le':
            return ('ge', m - Cv)
        if rel == 'gt':
            return ('ge', Cv - m - 1)
        if rel == 'ge':
            return ('ge', Fv - m)
        if rel == 'eq':
            return ('and', ('eq', Fv - m), ('eq', Cv - m))
        return ('or', ('ne', Fv - m), ('ne', Cv - m))

    # ------------------------------------------------------------ assuming a formula
    def assume(self, S, f):
        """list of states covering S /\\ f"""
        k = f[0]
        if S.dead():
            return []
        if k == 'T' or k == 'any':
            return [S]
        if k == 'unk':
            return [S.with_(exact=False)]
        if k == 'F':
            return []
        if k == 'ge' or k == 'eq':
            S2 = S.add((f[1], k == 'eq'))
            if S2.dead():
                return []
            if self.lazy:
                for v in f[1].t:
                    if v[0] in 'OFC' and int(v[1:]) in self.lazy:
                        kk = v[1:]
                        Fv, Cv, O = Lin.var('F' + kk), Lin.var('C' + kk), Lin.var('O' + kk)
                        if S2.p.ge(Fv):
                            S2 = S2.add((O - Fv, True))
                        elif S2.p.ge(-Fv - 1):
                            S2 = S2.add((O - Cv, True))
            return [S2]
        if k == 'ne':
            return self.assume(S, ('ge', f[1] - 1)) + self.assume(S, ('ge', -f[1] - 1))
        if k == 'and':
            r = []
            for x in self.assume(S, f[1]):
                r += self.assume(x, f[2])
            return r
        if k == 'or':
            r = self.assume(S, f[1])
            for x in self.assume(S, f_not(f[1])):
                r += self.assume(x, f[2])
            return r
        if k == 'st':
            for t in S.key:
                if t[0] == 'st' and t[1] == f[1]:
                    return [S] if t[2] == f[2] else []
            S = S.with_(key=S.key | {('st', f[1], f[2])}, exact=False)
            if f[1][0] == 'lt':
                S = self.order_facts(S, f[1][1], f[1][2], f[2])
            return [] if S.dead() else [S]
        raise AssertionError(k)

    def split(self, S, f, tag=None):
        """(states where f, states where not f); static atoms and tagged splits leave a partition tag"""
        yes, no = self.assume(S, f), self.assume(S, f_not(f))
        if yes and no:
            ls = list(f_lins(f))
            if ls and all(self.is_static(l) for l in ls):
                tag = ('s', tuple(l.key() for l in ls), f[0])
            elif f[0] in ('any', 'unk') or not ls:
                tag = None
            if tag is not None:
                yes = [s.with_(key=s.key | {tag + (('y', j),)}) for j, s in enumerate(yes)]
                no = [s.with_(key=s.key | {tag + (('n', j),)}) for j, s in enumerate(no)]
        return yes, no

    # ------------------------------------------------------------ obligations
    def ob(self, kind, i, what, S, f, extra=''):
        """require formula f in state S"""
        if self.mute or not self.recording_now():
            return
        key = (kind, self.pre, i.id if hasattr(i, 'id') else i, what)
        o = self.obs.get(key)
        if o is None:
            o = self.obs[key] = Ob(kind, i.where() if hasattr(i, 'where') else str(i), what)
        o.n += 1
        if f is None:
            st, det = 'unknown', extra
        else:
            bad = self.assume(S, f_not(f))
            if not bad:
                return
            st = 'unknown'
            det = ''
            if f in (ANY, UNK):
                det = extra
            elif S.exact and self.certain(S) and kind != 'order' and not (kind == 'readback' and any(x[0] == 'gap' for x in S.key)):
                st = 'violated'
            det = det or ('violated by ' + repr(bad[0].p.simplify()) + (' ' + extra if extra else ''))
            if len(o.bad) < 4 and f not in (ANY, UNK):
                o.bad.append(bad[0].p)
        if RANK[st] > RANK[o.status]:
            o.status, o.detail = st, det[:600]

    def certain(self, S):
        """no opaque approximated quantity constrains the state"""
        return not any(v[0] == 't' and v[1] != 'q' for v in S.p.vars())

    def recording_now(self):
        return all(self.recstack)

    # ------------------------------------------------------------ transfer
    def assign(self, S, v, l):
        """v := l (v a base variable name)"""
        if l is None:
            return S.with_(p=S.p.eliminate([v]))
        k = l.t.get(v, 0)
        if k == 0:
            p = S.p.eliminate([v]) if v in S.p.vars() else S.p
            return S.with_(p=p.add((Lin.var(v) - l, True)))
        tmp = v + "'"
        p = S.p.add((Lin.var(tmp) - l, True)).eliminate([v]).rename({tmp: v})
        return S.with_(p=p)

    def havoc(self, S, v):
        return S.with_(p=S.p.eliminate([v])) if v in S.p.vars() else S

    def fork(self, S, f, i, j=0):
        yes, no = self.split(S, f, None)
        return yes, no

    def step(self, i, S):
        """list of successor states of a non-terminator, non-phi instruction"""
        op = i.op
        if op in ('load', 'store', 'call', 'invoke'):
            return getattr(self, 'do_' + op)(i, S)
        me = self.vn(i.id)
        if i.id not in self.relevant:
            return [S]
        if op == 'select':
            if i.ty in ('i32', 'i64', 'i16', 'i8'):
                f = self.cond(i.ops[0], S)
                la, lb = self.lin(i.ops[1]), self.lin(i.ops[2])
                yes, no = self.split(S, f, None)
                S0 = [self.assign(s, me, la) for s in yes] + [self.assign(s, me, lb) for s in no]
                return S0
            if i.ty == 'ptr':
                f = self.cond(i.ops[0], S)
                yes, no = self.split(S, f, None)
                return [self.assign_ptr(s, i, i.ops[1], S) for s in yes] + [self.assign_ptr(s, i, i.ops[2], S) for s in no]
            return [S]
        if op in ('sdiv', 'udiv'):
            return self.do_div(i, S)
        if op in ('srem', 'urem'):
            return self.do_rem(i, S)
        if op in ('ashr', 'lshr') and i.ops[1][0] == 'c':
            a = self.lin(i.ops[0])
            if a is not None and (op == 'ashr' or S.p.ge(a)):
                c = 1 << i.ops[1][1]
                S = self.havoc(S, me)
                v = Lin.var(me)
                return [S.add((a - v * c, False), (v * c + (c - 1) - a, False))]
            return [self.havoc(S, me)]
        if op in ('fptosi', 'fptoui'):
            return self.do_fptosi(i, S)
        if op == 'mul' and (self.memo_lin_me(i) or self.static_key(i)):
            return self.do_mul(i, S)
        if op in ('zext', 'sext') and self.memo_lin_me(i):
            src = i.ops[0]
            if self._isbool(src):
                f = self.cond(src, S)
                yes, no = self.split(S, f, None)
                one = Lin(1 if op == 'zext' else -1)
                return [self.assign(s, me, one) for s in yes] + [self.assign(s, me, Lin(0)) for s in no]
            return [self.havoc(S, me)]
        if op in ('and', 'or', 'xor', 'urem', 'udiv', 'fptoui', 'ptrtoint', 'extractvalue', 'shl', 'lshr', 'ashr') and i.ty in ('i32', 'i64', 'i16', 'i8') and self.memo_lin_me(i):
            S = self.havoc(S, me)
            if op == 'and' and i.ops[1][0] == 'c' and i.ops[1][1] >= 0:
                S = S.add((Lin.var(me), False), (Lin(i.ops[1][1]) - Lin.var(me), False))
            return [S.with_(exact=False)]
        return [S]

    def memo_lin_me(self, i):
        l = self.lin(['v', i.id])
        return l is not None and l.t.get(self.vn(i.id)) == 1 and len(l.t) == 1 and l.c == 0

    def assign_ptr(self, S, i, o, S0):
        """pointer phi/select i := o evaluated in S0"""
        p = self.ptr(o, S0)
        v = self.vn(i.id)
        bs = {b for b in self.bases(i.id)}
        nn = {b for b in bs if b != ('null',)} or bs
        if o[0] == 'undef':
            return self.havoc(S, v)
        base = p[0] if p else None
        need = len(bs) > 1
        if need:
            S = S.with_(key=frozenset(t for t in S.key if not (t[0] == 'p' and t[1] == i.id and t[3] == self.pre)) | {('p', i.id, base, self.pre)})
        if p is None:
            return self.havoc(S, v)
        q = p[1].div(8)
        return self.assign(S, v, q)

    def tvar(self, key, S, facts=()):
        """variable shared by all occurrences of an option-only integer term"""
        name = self.tname(key)
        self.terms[name] = key
        S = S.add(*facts(Lin.var(name))) if facts else S
        return name, S

    def do_div(self, i, S):
        me = self.vn(i.id)
        a, b = self.lin(i.ops[0]), self.lin(i.ops[1])
        if a is None or b is None:
            return [self.havoc(S, me).with_(exact=False)]
        k = self.static_key(i)
        if k:
            n, S = self.tvar(k, S)
            v = Lin.var(n)
        else:
            v = Lin.var(me)
            S = self.havoc(S, me)
        c = b.const()
        if c is not None and c > 0:
            yes, no = self.split(S, ('ge', a), None)
            return ([s.add((a - v * c, False), (v * c + (c - 1) - a, False)) for s in yes] +
                    [s.add((v * c - a, False), (a - v * c + (c - 1), False)) for s in no])
        if S.p.ge(a) and S.p.ge(b - 1):
            S = S.add((v, False), (a - v, False))
        return [S if k else S.with_(exact=False)]

    def do_rem(self, i, S):
        if i.op == 'srem' and self.static_key(i):
            return self.do_div(i, S)
        me = self.vn(i.id)
        a, b = self.lin(i.ops[0]), self.lin(i.ops[1])
        if a is None or b is None:
            return [self.havoc(S, me).with_(exact=False)]
        v = Lin.var(me)
        S = self.havoc(S, me)
        if S.p.ge(a) and S.p.ge(b - 1):
            if S.p.ge(b * 2 - a - 1):
                yes, no = self.split(S, ('ge', b - a - 1), None)
                return [s.add((v - a, True)) for s in yes] + [s.add((v - a + b, True)) for s in no]
            if b.const() is not None:
                q = me + 'q'
                S = self.havoc(S, q)
                return [S.add((v, False), (b - v - 1, False), (a - v - Lin.var(q) * b.c, True))]
            S = S.add((v, False), (b - v - 1, False), (a - v, False))
            return [S.with_(exact=False)]
        if b.const() is not None and b.c > 0:
            S = S.add((v + (b.c - 1), False), (Lin(b.c - 1) - v, False))
        elif S.p.ge(b - 1):
            S = S.add((v + b - 1, False), (b - v - 1, False))
        return [S.with_(exact=False)]

    def do_mul(self, i, S):
        me = self.vn(i.id)
        a, b = self.lin(i.ops[0]), self.lin(i.ops[1])
        k = self.static_key(i)
        if k:
            n, S = self.tvar(k, S)
            v = Lin.var(n)
        else:
            v = Lin.var(me)
            S = self.havoc(S, me)
            if a is None or b is None:
                return [S.with_(exact=False)]
            S = S.with_(exact=False)
        if S.p.ge(a) and S.p.ge(b):
            S = S.add((v, False))
            if S.p.ge(b - 1):
                S = S.add((v - a, False))
            if S.p.ge(a - 1):
                S = S.add((v - b, False))
        return [S]

    def do_fptosi(self, i, S):
        k = self.static_key(i)
        if k:
            n, S = self.tvar(k, S)
            return self.term_facts(self.fp(i.ops[0]), Lin.var(n), S)
        if not self.memo_lin_me(i):
            return [S]
        me = self.vn(i.id)
        v = Lin.var(me)
        t = self.fpS(i.ops[0], S)
        S = self.havoc(S, me)
        if t is DATA:
            return [S]
        if isinstance(t, FPA):
            if t.s == 0:
                if t.f == 0:
                    return [S.add((v - t.l, True))]
                yes, no = self.split(S, ('ge', t.l), None)
                return [s.add((v - t.l, True)) for s in yes] + [s.add((v - t.l - 1, True)) for s in no]
            if t.f == 0:
                Fv, Cv = Lin.var('F%s' % t.k), Lin.var('C%s' % t.k)
                fl, ce = (Fv + t.l, Cv + t.l) if t.s > 0 else (t.l - Cv, t.l - Fv)
                yes, no = self.split(S, ('ge', fl), None)
                return [s.add((v - fl, True)) for s in yes] + [s.add((v - ce, True)) for s in no]
        if not self.term_static(t):
            return [S.with_(exact=False)]
        n, S = self.tvar(('int', self.tkey(t)), S)
        S = S.add((v - Lin.var(n), True))
        return self.term_facts(t, Lin.var(n), S)

    def term_facts(self, t, v, S):
        """bounds of trunc(t)"""
        r = self.fprange(t, S)
        out = S
        if r:
            lo, hi = r      # (Lin, den) bounds: lo/den <= t <= hi/den
            if lo is not None:
                l, d = lo
                if out.p.ge(l):          # t >= 0
                    out = out.add((v, False), (v * d + (d - 1) - l, False))
            if hi is not None:
                h, d = hi
                if out.p.ge(h):
                    out = out.add((h - v * d, False))
                    up = [(x, c) for x, c in h.t.items() if x[0] == 'C']
                    if up and all(c > 0 for _, c in up) and all(Fraction(c).denominator == 1 for c in list(h.t.values()) + [h.c]):
                        g = h - 1           # x < F + 1 for every option x
                        for x, c in up:
                            g = g - Lin.var(x) * c + (Lin.var('F' + x[1:]) + 1) * c
                        out = out.add((g - v * d, False))
        if isinstance(t, tuple) and t[0] == 'call' and t[1] == 'sqrt':
            l = self._tl(t[2])
            if l is not None and out.p.ge(l):
                out = out.add((v, False), (l - v, False))
                if out.p.ge(l - 1):
                    out = out.add((v - 1, False))
        return [out]

    def _tl(self, k):
        """Lin of an FPA key that is a plain integer"""
        if isinstance(k, tuple) and k and k[0] == 'A' and not k[1] and k[4] == 0:
            return Lin(k[3][0], dict(k[3][1]))
        return None

    def fprange(self, t, S):
        """((Lin, den) lower, (Lin, den) upper) of an option-only term, either may be None"""
        if isinstance(t, tuple) and t and t[0] == 'A':
            s, k, lk, f = t[1:]
            l = Lin(lk[0], dict(lk[1]))
            d = f.denominator
            if d > 1000:
                lo, hi, d = l, l + 1, 1
            else:
                lo = hi = l * d + f.numerator
            if s:
                Fv, Cv = Lin.var('F%s' % k) * d, Lin.var('C%s' % k) * d
                lo, hi = (lo + Fv, hi + Cv) if s > 0 else (lo - Cv, hi - Fv)
            return ((lo, d), (hi, d))
        if isinstance(t, FPA):
            return self.fprange(t.key(), S)
        if not isinstance(t, tuple):
            return None
        if t[0] in ('fdiv', 'fmul'):
            a = self.fprange(t[1], S)
            b = self.fprange(t[2], S)
            if a and b:
                for x, y in ((a, b), (b, a)) if t[0] == 'fmul' else ((a, b),):
                    if y[0] and y[1] and not y[0][0].t and y[0] == y[1] and y[0][0].c > 0:
                        num, den = y[0][0].c, y[0][1]
                        if t[0] == 'fdiv':
                            num, den = den, num
                        if num < 10000 and den < 10000:
                            return tuple((z[0] * num, z[1] * den) if z else None for z in x)
                # signs, and quotients by something of at least one
                if a[0] and b[0] and S.p.ge(a[0][0]):
                    if t[0] == 'fmul' and S.p.ge(b[0][0]):
                        return ((Lin(0), 1), None)
                    if t[0] == 'fdiv' and S.p.ge(b[0][0] - b[0][1]):
                        return ((Lin(0), 1), a[1])
            return None
        if t[0] in ('fadd', 'fsub'):
            a, b = self.fprange(t[1], S), self.fprange(t[2], S)
            if a and b:
                if t[0] == 'fsub':
                    b = tuple((-z[0], z[1]) if z else None for z in (b[1], b[0]))
                return tuple((x[0] * y[1] + y[0] * x[1], x[1] * y[1]) if x and y else None for x, y in zip(a, b))
            return None
        if t[0] == 'call' and t[1] in ('ceil', 'floor', 'round', 'trunc', 'rint', 'nearbyint'):
            a = self.fprange(t[2], S)
            if a:
                lo, hi = a
                if t[1] in ('floor', 'round', 'trunc', 'rint', 'nearbyint') and lo:
                    lo = (lo[0] - (lo[1] - 1), lo[1])
                if t[1] in ('ceil', 'round', 'rint', 'nearbyint') and hi:
                    hi = (hi[0] + (hi[1] - 1), hi[1])
                return (lo, hi)
        if t[0] == 'call' and t[1] in ('maxnum', 'fmax', 'minnum', 'fmin'):
            return None
        return None

    # ------------------------------------------------------------ memory
    def do_load(self, i, S):
        p = self.ptr(i.ops[0], S)
        me = self.vn(i.id)
        isint = i.ty in ('i32', 'i64', 'i16', 'i8', 'i1')
        if p is None:
            self.unknown_access(i, S, 'load')
            if isint:
                S = self.havoc(S, me).with_(exact=False)
            return [S]
        base, off = p
        self.check_access(i, S, base, off, i.sz or 8, False)
        if base == ('opt',) and off.const() is None and i.ty == 'double' and self.fp(['v', i.id]) == ('mem', i.id):
            mem = dict(S.mem)
            mem.pop(('fl', self.pre, i.id), None)
            c = self.fixed(S, off)
            if c is not None and c % 8 == 0 and 0 <= c < 8 * self.ind.nopt:
                k = c // 8
                mem[('fl', self.pre, i.id)] = FPA(0, None, Lin(0), self.optval[k]) if self.optval is not None and 0 <= k < len(self.optval) else FPA(1, k, Lin(0))
            return [S.with_(mem=mem)]
        if base in (('ins',), ('outs',), ('opt',)):
            return [S]
        if base[0] in ('in', 'out'):
            if self.hooks:
                S = self.hooks.bar_load(self, i, S, base, off)
            if isint:
                S = self.havoc(S, me).with_(exact=False)
            return [S]
        c = off.const()
        if c is None and base[0] in ('alloca', 'heap', 'stream'):
            c = self.fixed(S, off)
        if c is not None:
            cell = S.mem.get((base, c))
            z = cell is None and self.zeroed(S, base, c)
            if isint:
                S = self.havoc(S, me)
                if cell == 'i':
                    return [S.add((Lin.var(me) - Lin.var(cellvar(base, c)), True))]
                if z:
                    return [S.add((Lin.var(me), True))]
                return [S.with_(exact=False)]
            if i.ty == 'ptr':
                mem = dict(S.mem)
                mem.pop(('pl', self.pre, i.id), None)
                if isinstance(cell, tuple) and cell[0] == 'p':
                    mem[('pl', self.pre, i.id)] = (cell[1], cell[2])
                elif isinstance(cell, tuple) and cell[0] == 'pv':
                    S = self.assign(S, me, Lin.var(cellvar(base, c)))
                    mem[('pl', self.pre, i.id)] = (cell[1], Lin(0, {me: 8}))
                elif z:
                    mem[('pl', self.pre, i.id)] = (('null',), Lin(0))
                return [S.with_(mem=mem)]
            if i.ty == 'double':
                mem = dict(S.mem)
                mem.pop(('fl', self.pre, i.id), None)
                if isinstance(cell, tuple) and cell[0] == 'f':
                    mem[('fl', self.pre, i.id)] = cell[1]
                elif ('fl', self.pre, i.id) in S.mem:
                    pass
                else:
                    return [S]
                return [S.with_(mem=mem)]
            return [S]
        if isint:
            S = self.havoc(S, me).with_(exact=False)
        elif i.ty == 'ptr' and ('pl', self.pre, i.id) in S.mem:
            mem = dict(S.mem)
            del mem[('pl', self.pre, i.id)]
            S = S.with_(mem=mem)
        return [S]

    def fixed(self, S, off):
        """constant value of off in S, if there is one"""
        if len(off.t) > 3:
            return None
        p = S.p
        # look for equalities pinning it
        for e, c, it in p.cons:
            if e:
                l = Lin(c, dict(it))
                for s in (1, -1):
                    d = off - l * s
                    if not d.t:
                        return d.c
        pin = {it[0][0]: -c // it[0][1] for e, c, it in p.cons if e and len(it) == 1}
        if all(v in pin for v in off.t):
            return off.c + sum(k * pin[v] for v, k in off.t.items())
        return None

    def zeroed(self, S, base, c):
        for k, v in S.mem.items():
            if k[0] == 'zero' and k[1] == base and k[2] <= c < k[3]:
                return True
        return False

    def do_store(self, i, S):
        val, pt = i.ops[0], i.ops[1]
        p = self.ptr(pt, S)
        if p is None:
            self.unknown_access(i, S, 'store')
            return [S]
        base, off = p
        sz = i.sz or 8
        self.check_access(i, S, base, off, sz, True)
        if base == ('pstream',):
            q = self.ptr(val, S)
            q = self.pinptr(q, S) if q is not None else None
            mem = dict(S.mem)
            mem[(base, 0)] = ('p',) + q if q is not None else 'x'
            return [S.with_(mem=mem)]
        if base[0] == 'out':
            return self.out_write(i, S, base[1], off, Lin(8), i)
        if base[0] in ('in', 'g', 'opt', 'ins', 'outs', 'null'):
            return [S]
        c = off.const()
        if c is None:
            c = self.fixed(S, off)
        vty = i.vty
        if c is not None:
            return [self.store_cell(S, base, c, vty, val, sz)]
        # variable offset: doubles never overlay integer or pointer cells of an object (typed access)
        if vty == 'double':
            mem = {k: v for k, v in S.mem.items() if not (k[0] == base and isinstance(v, tuple) and v[0] == 'f' and not S.p.ge(off - k[1] - 8))}
            if len(mem) != len(S.mem):
                S = S.with_(mem=mem)
            return [S]
        return [self.clobber(S, base)]

    def clobber(self, S, base, lo=None, hi=None):
        def hit(k):
            return k[0] == base and (lo is None or k[1] + 8 > lo) and (hi is None or k[1] < hi)
        dead = [cellvar(k[0], k[1]) for k, v in S.mem.items() if hit(k) and hasvar(v)]
        mem = {k: v for k, v in S.mem.items() if not hit(k) and not (k[0] == 'zero' and k[1] == base)}
        for k in S.mem:
            if k[0] == 'zero' and k[1] == base:         # what the range leaves of it
                if lo is not None and k[2] < lo:
                    mem[('zero', base, k[2], min(k[3], lo))] = True
                if hi is not None and hi < k[3]:
                    mem[('zero', base, max(k[2], hi), k[3])] = True
        return S.with_(p=S.p.eliminate(dead), mem=mem)

    def store_cell(self, S, base, c, vty, val, sz):
        mem = dict(S.mem)
        cv = cellvar(base, c)
        # overlapping cells of other shapes
        for k in [k for k in mem if k[0] == base and isinstance(k[1], int) and k[1] != c and k[1] < c + sz and k[1] + 4 > c]:
            if hasvar(mem[k]):
                S = self.havoc(S, cellvar(*k))
            del mem[k]
        if vty in ('i32', 'i64', 'i16', 'i8'):
            l = self.lin(val)
            S = self.assign(S, cv, l)
            mem[(base, c)] = 'i'
        elif vty == 'ptr':
            q0 = self.ptr(val, S)
            q = self.pinptr(q0, S) if q0 is not None else None
            if q is None and q0 is not None and q0[1].div(8) is not None:
                S = self.assign(S, cv, q0[1].div(8))
                mem[(base, c)] = ('pv', q0[0])
            else:
                mem[(base, c)] = ('p',) + q if q is not None else 'x'
                if cv in S.p.vars():
                    S = self.havoc(S, cv)
        elif vty == 'double':
            t = self.fpS(val, S)
            if isinstance(t, FPA) and not self.is_static(t.l):
                l2 = t.l
                t = DATA
            if t is not DATA and self.term_static(t):
                mem[(base, c)] = ('f', t)
            else:
                mem[(base, c)] = 'x'
        else:
            mem[(base, c)] = 'x'
        return S.with_(mem=mem)

    def pinptr(self, q, S):
        base, off = q
        if off.const() is None:
            c = self.fixed(S, off)
            if c is None:
                return None
            off = Lin(c)
        return (base, off)

    # ------------------------------------------------------------ accesses
    def unknown_access(self, i, S, what):
        self.ob('access', i, what + ' through a pointer the analysis does not resolve', S, None, 'pointer not resolved')

    def objsize(self, base, S):
        """size in bytes of the object as Lin, or None"""
        if base[0] == 'alloca':
            return self.allocas().get(base[1])
        if base[0] in ('heap', 'vec', 'stream'):
            v = 'z:' + '.'.join(str(x) for x in base)
            if v in S.p.vars():
                return Lin.var(v)
            x = S.mem.get(('size', base))
            return x
        return None

    def allocas(self):
        if not hasattr(self, '_al'):
            self._al = {}
            for i in self.fn.all():
                if i.op == 'alloca':
                    n = self.lin(i.ops[0]) if i.ops else Lin(1)
                    if n is not None:
                        self._al[self.pre + str(i.id)] = n * i.elsz
        return self._al

    def check_access(self, i, S, base, off, sz, write):
        if not self.recording_now():
            return
        k = base[0]
        if k == 'in':
            if write:
                self.ob('write-in', i, 'input %d' % base[1], S, F_)
                return
            if sz != 8 or off.div(8) is None:
                self.ob('read', i, 'input %d' % base[1], S, None, 'odd offset')
                return
            q = off.div(8)
            self.ob('read', i, 'input %d' % base[1], S, ('and', ('ge', q), ('ge', Lin.var('n') - q - 1)), 'index %r of %s' % (q, 'n'))
        elif k == 'out':
            if not write:
                q = off.div(8)
                if q is None:
                    self.ob('readback', i, 'output %d' % base[1], S, None, 'odd offset')
                else:
                    self.ob('readback', i, 'output %d' % base[1], S, ('and', ('ge', q), ('ge', Lin.var('w%d' % base[1]) - q - 1)), 'index %r' % q)
        elif k in ('alloca', 'heap', 'vec', 'stream'):
            z = self.objsize(base, S)
            what = {'alloca': 'local array', 'heap': 'heap block', 'vec': 'vector', 'stream': 'stream'}[k]
            if z is None:
                self.ob('buffer', i, what, S, None, 'size not known')
            else:
                self.ob('buffer', i, what, S, ('and', ('ge', off), ('ge', z - off - sz)), 'byte offset %r in %r bytes' % (off, z))
        elif k == 'null':
            self.ob('buffer', i, 'null', S, None, 'null pointer')
        elif k in ('ins', 'outs', 'opt'):
            n = {'ins': self.ind.nin, 'outs': self.ind.nout, 'opt': self.ind.nopt}[k]
            self.ob('arg', i, {'ins': 'inputs', 'outs': 'outputs', 'opt': 'options'}[k] + ' array', S, ('and', ('ge', off), ('ge', Lin(8 * n - sz) - off)), 'entry %r of %d' % (off.div(8) if off.div(8) is not None else off, n))
        elif k == 'g':
            pass

    def out_write(self, i, S, k, off, nbytes, site):
        """elements [off/8, (off+nbytes)/8) of output k are written"""
        if self.hooks:
            S = self.hooks.out_write(self, i, S, k, off, nbytes)
        w = Lin.var('w%d' % k)
        q, m = off.div(8), nbytes.div(8)
        if q is None or m is None:
            self.ob('write', i, 'output %d' % k, S, None, 'odd offset')
            S = self.havoc(S, 'w%d' % k)
            return [S.with_(exact=False)]
        self.ob('write', i, 'start of output %d' % k, S, ('ge', q), 'element %r' % q)
        self.ob('order', i, 'output %d' % k, S, ('ge', w - q), 'element %r while %s were written' % (q, 'w%d' % k))
        if self.room and self.recording_now():
            for s, r in self.room(S):
                for x in self.assume(s, ('ge', m - 1)):
                    self.ob('write', i, 'end of output %d' % k, x, ('ge', r - q - m) if r is not None else None, 'elements up to %r of %r promised' % (q + m, r))
        res = []
        t = 'y%d' % k
        gap = any(x[0] == 'gap' and x[1] == k for x in S.key)
        for s in self.assume(S, ('and', ('ge', q), ('ge', w - q))):
            if gap:
                s = self.assign(s, t, Lin.var(t) + m)
            yes, no = self.assume(s, ('ge', q + m - w)), self.assume(s, ('ge', w - q - m - 1))
            res += [self.assign(x, 'w%d' % k, q + m) for x in yes] + no
        if self.narrow:
            # an element further on: w stays what is written without gaps, y counts everything written
            for s in self.assume(S, ('and', ('ge', q), ('ge', q - w - 1))):
                s = self.assign(s, t, (Lin.var(t) if gap else w) + m)
                res.append(s if gap else s.with_(key=s.key | {('gap', k)}))
        if not res:
            # the element cannot be in place: keep going without knowledge of the count
            res = [self.havoc(S, 'w%d' % k).with_(exact=False)]
        return res

    # ------------------------------------------------------------ calls
    def do_invoke(self, i, S):
        return self.do_call(i, S)

    def do_call(self, i, S):
        n = i.callee or ''
        me = self.vn(i.id)
        if n in ALLOCS:
            return self.do_alloc(i, S)
        if n in ('free', '_ZdlPv', '_ZdlPvm', '_ZdaPv', '_ZdaPvm') or n.startswith('_ZdlPv') or n.startswith('_ZdaPv'):
            return [S]
        if n.startswith('llvm.memset'):
            return self.do_memset(i, S)
        if n.startswith('llvm.memcpy') or n.startswith('llvm.memmove') or n in ('memcpy', 'memmove'):
            return self.do_memcpy(i, S)
        if n.startswith('llvm.smax') or n.startswith('llvm.smin') or n.startswith('llvm.umax') or n.startswith('llvm.umin'):
            a, b = self.lin(i.ops[0]), self.lin(i.ops[1])
            S = self.havoc(S, me)
            if a is None or b is None or ('.u' in n and not (S.p.ge(a) and S.p.ge(b))):
                return [S.with_(exact=False)]
            yes, no = self.split(S, ('ge', a - b), None)
            big, small = (yes, no) if 'max' in n else (no, yes)
            return [s.add((Lin.var(me) - a, True)) for s in big] + [s.add((Lin.var(me) - b, True)) for s in small]
        if n.startswith('llvm.abs'):
            a = self.lin(i.ops[0])
            S = self.havoc(S, me)
            if a is None:
                return [S.with_(exact=False)]
            yes, no = self.split(S, ('ge', a), None)
            return [s.add((Lin.var(me) - a, True)) for s in yes] + [s.add((Lin.var(me) + a, True)) for s in no]
        if n.startswith('llvm.expect'):
            a = self.lin(i.ops[0])
            return [self.assign(S, me, a)] if i.ty != 'i1' else [S]
        if n.startswith('llvm.') or n in PUREMATH:
            if i.ty in ('i32', 'i64'):
                S = self.havoc(S, me).with_(exact=False)
            return [S]
        kind = self.is_vec(i)
        if kind:
            return self.do_vec(i, S, kind)
        kind = self.is_iter(i)
        if kind:
            return self.do_iter(i, S, kind)
        if n in ('__cxa_begin_catch', '__cxa_end_catch', '__clang_call_terminate', '_ZSt9terminatev'):
            return [S]
        # unknown callee (container internals): its receiver's own members may change
        if i.ops and (n.startswith('_ZNSt') or n.startswith('_ZNKSt') or n.startswith('_ZSt')):
            p = self.ptr(i.ops[0], S) if self._isptr(i.ops[0]) else None
            if p and p[0][0] in ('alloca', 'heap', 'stream') and p[1].const() is not None and not n.startswith('_ZNKSt'):
                S = self.clobber(S, p[0], p[1].const(), p[1].const() + CONTAINER.get(n[5:12], 80))
            for o in i.ops[1:]:
                p = self.ptr(o, S) if self._isptr(o) else None
                if p and p[0][0] in ('in', 'out'):          # element handed by reference
                    self.check_access(i, S, p[0], p[1], 8, False)
        else:
            for o in i.ops:
                p = self.ptr(o, S) if self._isptr(o) else None
                if p and p[0][0] in ('alloca', 'heap', 'stream'):
                    S = self.clobber(S, p[0])
                if p and p[0][0] == 'out' and n not in ('printf',):
                    S = self.havoc(S, 'w%d' % p[0][1]).with_(exact=False)
                    self.ob('write', i, 'output %d' % p[0][1], S, None, 'passed to %s' % n)
        if i.ty in ('i32', 'i64', 'i16', 'i8'):
            S = self.havoc(S, me).with_(exact=False)
        return [S]

    def do_alloc(self, i, S):
        n = i.callee
        base = ('heap', self.pre + str(i.id))
        if n == 'calloc':
            a, b = self.lin(i.ops[0]), self.lin(i.ops[1])
            size = None
            if a is not None and b is not None:
                size = a * b.c if b.const() is not None else (b * a.c if a.const() is not None else None)
        elif n == 'realloc':
            size = self.lin(i.ops[1])
        else:
            size = self.lin(i.ops[0])
        zv = 'z:' + '.'.join(base)
        self.ob('alloc', i, 'allocation size', S, ('ge', size) if size is not None else None, 'size %r' % size)
        S = self.clobber(S, base)
        S = self.assign(S, zv, size)
        if size is not None:
            mem = dict(S.mem)
            if n == 'calloc':
                mem[('zero', base, 0, 1 << 60)] = True
            S = S.with_(mem=mem)
        inloop = self.innermost[i.bb] is not None
        key = frozenset(t for t in S.key if not (t[0] == 'm' and t[1] == base[1]))
        ok = S.with_(key=key | {('m', base[1], True)})
        if n in ('malloc', 'calloc', 'realloc') or 'nothrow' in n:
            return [ok, S.with_(key=key | {('m', base[1], False)})]
        return [ok]

    def do_vec(self, i, S, kind):
        me = self.vn(i.id)
        isint = i.ty in ('i32', 'i64')
        for o in i.ops[1:]:
            p = self.ptr(o, S) if self._isptr(o) else None
            if p and p[0][0] in ('in', 'out'):          # element handed by reference
                self.check_access(i, S, p[0], p[1], 8, False)
        base = self.vecbase(i, S)
        if base is None:
            return [self.havoc(S, me).with_(exact=False) if isint else S]
        zv = 'z:' + '.'.join(base)
        z = Lin.var(zv)
        if kind in ('ctor', 'resize', 'assign'):
            l = self.lin(i.ops[1])
            self.ob('alloc', i, 'container size', S, ('ge', l) if l is not None else None, 'size %r' % l)
            return [self.assign(S, zv, l * 8 if l is not None else None)]
        if kind in ('ctor0', 'clear'):
            return [self.assign(S, zv, Lin(0))]
        if kind == 'reserve':
            l = self.lin(i.ops[1])
            self.ob('alloc', i, 'container capacity', S, ('ge', l) if l is not None else None, 'size %r' % l)
            return [S]
        known = zv in S.p.vars()
        if kind == 'push':
            return [self.assign(S, zv, z + 8 if known else None)]
        if kind in ('pop', 'erase'):
            self.ob('buffer', i, 'container', S, ('ge', z - 8) if known else None, 'removal from %r bytes' % z)
            return self.assume(self.assign(S, zv, z - 8), ('ge', z)) if known else [S]
        if kind == 'size':
            S = self.havoc(S, me)
            if known:
                return [S.add((Lin.var(me) * 8 - z, True))]
            return [S.with_(exact=False)]
        if kind in ('end', 'back', 'find'):
            S = self.havoc(S, me)
            if not known:
                return [S.with_(exact=False)]
            v = Lin.var(me) * 8
            if kind == 'end':
                return [S.add((v - z, True))]
            if kind == 'back':
                return [S.add((v - z + 8, True))]
            return [S.add((Lin.var(me), False), (z - 8 - v, False)).with_(exact=False)]
        if kind == 'other':
            S = self.havoc(S, zv).with_(exact=False)
            if isint:
                S = self.havoc(S, me)
        return [S]

    def do_iter(self, i, S, kind):
        me = self.vn(i.id)
        if kind == 'next':
            S = self.havoc(S, me)
            p = self.ptr(i.ops[0], S)
            l = self.lin(i.ops[1]) if len(i.ops) > 1 else Lin(1)
            if not p or p[0][0] != 'vec' or l is None or p[1].div(8) is None:
                return [S.with_(exact=False)]
            S = S.add((Lin.var(me) - p[1].div(8) - l, True))
            z = self.objsize(p[0], S)
            self.ob('buffer', i, 'iterator', S, ('and', ('ge', Lin.var(me)), ('ge', z - Lin.var(me) * 8)) if z is not None else None, 'position %r' % (p[1].div(8) + l))
            return [S]
        q = self.ptr(i.ops[0], S)
        cell = S.mem.get((q[0], q[1].const())) if q and q[1].const() is not None else None
        if not (isinstance(cell, tuple) and cell[0] in ('p', 'pv') and cell[1][0] == 'vec'):
            if kind == 'incr' and q and q[1].const() is not None:
                S = self.clobber(S, q[0], q[1].const(), q[1].const() + 8)
            mem = dict(S.mem)
            mem.pop(('pl', self.pre, i.id), None)
            return [S.with_(mem=mem, exact=False)]
        k = (q[0], q[1].const())
        mem = dict(S.mem)
        cv = cellvar(*k)
        if cell[0] == 'p':
            S = self.assign(S, cv, cell[2].div(8))
            mem[k] = ('pv', cell[1])
        if kind == 'incr':
            S = S.with_(mem=mem)
            z = self.objsize(cell[1], S)
            self.ob('buffer', i, 'iterator', S, ('ge', z - Lin.var(cv) * 8 - 8) if z is not None else None, 'incremented past the end')
            return [self.assign(S, cv, Lin.var(cv) + 1)]
        S = self.assign(S, me, Lin.var(cv))
        mem[('pl', self.pre, i.id)] = (cell[1], Lin(0, {me: 8}))
        return [S.with_(mem=mem)]

    def do_memset(self, i, S):
        p = self.ptr(i.ops[0], S)
        ln = self.lin(i.ops[2])
        if p is None:
            self.unknown_access(i, S, 'memset')
            return [S]
        base, off = p
        if base[0] == 'out' and ln is not None:
            return self.out_write(i, S, base[1], off, ln, i)
        if base[0] in ('heap', 'alloca', 'stream', 'vec'):
            z = self.objsize(base, S)
            self.ob('buffer', i, 'memset', S, ('and', ('ge', off), ('ge', z - off - ln)) if z is not None and ln is not None else None, 'fill of %r bytes at %r' % (ln, off))
            c, m = off.const(), ln.const() if ln is not None else None
            if c is not None and m is not None:
                S = self.clobber(S, base, c, c + m)
                if i.ops[1] == ['c', 0]:
                    mem = dict(S.mem)
                    mem[('zero', base, c, c + m)] = True
                    S = S.with_(mem=mem)
                return [S]
            S1 = self.clobber(S, base, c)
            if c is not None and z is not None and ln is not None and i.ops[1] == ['c', 0] and S.p.ge(ln + c - z):
                S1 = S1.with_(mem={**S1.mem, ('zero', base, c, 1 << 60): True})
            return [S1]
        return [S]

    def do_memcpy(self, i, S):
        d, s = self.ptr(i.ops[0], S), self.ptr(i.ops[1], S)
        ln = self.lin(i.ops[2])
        if s is not None and s[0][0] == 'in' and ln is not None:
            q, m = s[1].div(8), ln.div(8)
            if q is not None and m is not None:
                for x in self.assume(S, ('ge', m - 1)):
                    self.ob('read', i, 'input %d' % s[0][1], x, ('and', ('ge', q), ('ge', Lin.var('n') - q - m)), 'copy of %r from %r' % (m, q))
                if self.hooks:
                    S = self.hooks.bar_load(self, i, S, s[0], s[1] + ln - 8)
            else:
                self.ob('read', i, 'input %d' % s[0][1], S, None, 'odd copy')
        if d is None:
            self.unknown_access(i, S, 'memcpy')
            return [S]
        if d[0][0] == 'out' and ln is not None:
            res = []
            for x in self.assume(S, ('ge', ln - 1)):
                res += self.out_write(i, x, d[0][1], d[1], ln, i)
            return res + self.assume(S, ('ge', -ln))
        if d[0][0] in ('heap', 'alloca', 'stream', 'vec'):
            z = self.objsize(d[0], S)
            self.ob('buffer', i, 'memcpy', S, ('and', ('ge', d[1]), ('ge', z - d[1] - ln)) if z is not None and ln is not None else None, 'copy of %r bytes to %r' % (ln, d[1]))
            if s is not None and s[0][0] in ('heap', 'alloca', 'stream', 'vec'):
                z = self.objsize(s[0], S)
                self.ob('buffer', i, 'memcpy source', S, ('and', ('ge', s[1]), ('ge', z - s[1] - ln)) if z is not None and ln is not None else None, 'copy of %r bytes from %r' % (ln, s[1]))
            c = d[1].const()
            # cells copied one by one when both sides are known
            S2 = self.clobber(S, d[0], c, c + ln.const() if c is not None and ln is not None and ln.const() is not None else None)
            if s is not None and s[1].const() is not None and c is not None and ln is not None and ln.const() is not None:
                mem = dict(S2.mem)
                for k, v in S.mem.items():
                    if k[0] == s[0] and isinstance(k[1], int) and s[1].c <= k[1] < s[1].c + ln.c:
                        nk = (d[0], k[1] - s[1].c + c)
                        mem[nk] = v
                        if hasvar(v):
                            S2 = self.assign(S2, cellvar(*nk), Lin.var(cellvar(*k)))
                S2 = S2.with_(mem=mem)
            return [S2]
        return [S]

    # ------------------------------------------------------------ control flow
    def merge(self, states, cap=MAXSTATES):
        """join states with equal keys"""
        groups = {}
        for s in states:
            if s.dead():
                continue
            groups.setdefault(s.key, []).append(s)
        out = []
        for k, g in groups.items():
            if self.narrow and self.APART:
                g = self.apart(g)
                if len(g) <= self.KEEP:
                    out += g
                    continue
            j = self.joinall(g)
            if self.narrow and len(g) > 1 and not j.exact and all(s.exact for s in g) and len(g) <= self.KEEP:
                d = []
                for s in g:
                    if not any(s.p.cons == x.p.cons and s.mem == x.mem for x in d):
                        d.append(s)
                out += d
            else:
                out.append(j)
        if len(out) > cap:
            # drop dynamic tags
            groups = {}
            for s in out:
                k = frozenset(t for t in s.key if t[0] in ('st', 'm', 'p', 'o', 'gap'))
                groups.setdefault(k, []).append(s.with_(key=k))
            out = [self.joinall(g) for g in groups.values()]
            self.notes.add('partition cap')
        return out

    def apart(self, g):
        """joins only those states of g that agree in all numbers and pointers"""
        d = {}
        for s in g:
            same = (frozenset(map(repr, s.p.pin().cons or ())), frozenset((k, repr(v)) for k, v in s.mem.items() if k[0] not in SHADOW), s.exact)
            d.setdefault(same, []).append(s)
        return [self.joinall(x) for x in d.values()]

    def joinall(self, g):
        if len(g) == 1:
            return g[0]
        # drop states contained in another with the same memory
        mem = g[0].mem
        for s in g[1:]:
            mem = joinmem(mem, s.mem)
        # integer cells known in only some of the states are unknown afterwards
        ps = []
        for s in g:
            lost = [cellvar(*k) for k, v in s.mem.items() if hasvar(v) and mem.get(k) != v]
            ps.append(s.p.eliminate(lost) if lost else s.p)
        uniq = []
        for p in ps:
            if not any(p.cons == q.cons for q in uniq):
                uniq.append(p)
        exact = all(s.exact for s in g)
        if len(uniq) == 1:
            return State(uniq[0], mem, g[0].key, exact)
        # materialise zeroed cells that are explicit elsewhere: lost (they become unknown)
        h = hull(uniq)
        if exact and (self.exacting or self.narrow or self.recording_now()) and not h.covered(uniq):
            exact = False
        return State(h, mem, g[0].key, exact)

    def zero_materialise(self, states):
        """integer cells explicit in one state and zero-initialised in another become explicit zeros; pointers into
        one object at different offsets become variable ones"""
        if len(states) < 2:
            return states
        ks, pv = set(), {}
        for s in states:
            for k, v in s.mem.items():
                if v == 'i':
                    ks.add(k)
                elif isinstance(v, tuple) and v and v[0] in ('p', 'pv') and isinstance(k[1], int):
                    pv.setdefault(k, set()).add(v)
        pv = {k for k, vs in pv.items() if len(vs) > 1 and len({v[1] for v in vs}) == 1}
        if not ks and not pv:
            return states
        out = []
        for s in states:
            mem = None
            p = s.p
            for k in ks:
                if k not in s.mem and self.zeroed(s, k[0], k[1]):
                    mem = dict(mem if mem is not None else s.mem)
                    mem[k] = 'i'
                    p = p.add((Lin.var(cellvar(*k)), True))
            for k in pv:
                v = s.mem.get(k)
                if isinstance(v, tuple) and v[0] == 'p' and v[2].div(8) is not None:
                    mem = dict(mem if mem is not None else s.mem)
                    mem[k] = ('pv', v[1])
                    p = p.add((Lin.var(cellvar(*k)) - v[2].div(8), True))
            out.append(s.with_(p=p, mem=mem) if mem is not None else s)
        return out

    def run(self, entry):
        """analyse the function from the entry states; fills self.rets with (state, ret instruction)"""
        self.recstack = [True]
        self.region(set(range(len(self.fn.blocks))), None, {0: entry})
        return self.rets

    def region(self, blocks, head, inflow):
        """process the blocks of a region in reverse post-order.  With head given the region is a loop body
        entered at head (already past its phis); returns (back states, {block: states} leaving the region)."""
        back, out = [], {}
        done = set()
        for b in self.order:
            if b not in blocks or b in done:
                continue
            if b != head and b in self.heads and self.heads[b] <= blocks:
                sts = inflow.pop(b, [])
                if sts:
                    res = self.loop(b, sts)
                    for t, ss in res.items():
                        if t == head:
                            back += ss
                        elif t in blocks:
                            inflow.setdefault(t, []).extend(ss)
                        else:
                            out.setdefault(t, []).extend(ss)
                done |= self.heads[b]
                continue
            sts = inflow.pop(b, [])
            if not sts:
                continue
            if time.time() > self.deadline:
                raise GiveUp('time limit')
            if b != head:
                sts = self.merge(self.zero_materialise([self.kill_dead(s, b) for s in sts]))
            for t, ss in self.block(b, sts):
                ss = [x for x in ss if not x.dead()]
                if not ss:
                    continue
                if t == head:
                    back += ss
                elif t in blocks:
                    inflow.setdefault(t, []).extend(ss)
                else:
                    out.setdefault(t, []).extend(ss)
        return back, out

    def block(self, b, states):
        """transfer of a block; yields (successor, states after that successor's phis)"""
        fn = self.fn
        for i in fn.blocks[b]:
            if i.op == 'phi':
                continue
            if i.op in ('br', 'switch', 'ret', 'unreachable', 'resume'):
                break
            if i.op == 'invoke':
                nxt = []
                for s in states:
                    nxt += self.do_invoke(i, s)
                yield i.normal, [self.phis(b, i.normal, s) for s in nxt]
                return
            nxt = []
            if time.time() > self.deadline:
                raise GiveUp('time limit')
            for s in states:
                nxt += self.step(i, s)
            states = [s for s in nxt if not s.dead()]
            if len(states) > MAXSTATES * 2:
                states = self.merge(states)
        t = fn.term(b)
        if t.op == 'ret':
            if self.recording_now():
                for s in states:
                    self.rets.append((s, t))
            return
        if t.op == 'br':
            if len(t.succ) == 1:
                yield t.succ[0], [self.phis(b, t.succ[0], s) for s in states]
                return
            a, c = [], []
            lp = self.innermost[b]
            for s in states:
                f = self.cond(t.ops[0], s)
                exits = lp is not None and any(x not in self.heads[lp] for x in t.succ)
                tag = None
                if lp is None or exits:
                    tag = ('b', self.pre, b)
                yes, no = self.split(s, f, tag)
                if exits:
                    # tell the ways of leaving a loop apart
                    if t.succ[0] not in self.heads[lp]:
                        yes = [x.with_(key=x.key | {('x', self.pre, b, j)}) for j, x in enumerate(yes)]
                    if t.succ[1] not in self.heads[lp]:
                        no = [x.with_(key=x.key | {('x', self.pre, b, j)}) for j, x in enumerate(no)]
                a += yes
                c += no
            yield t.succ[0], [self.phis(b, t.succ[0], s) for s in a]
            yield t.succ[1], [self.phis(b, t.succ[1], s) for s in c]
            return
        if t.op == 'switch':
            for s in states:
                l = self.lin(t.ops[0])
                rest = [s]
                for cv, dst in t.cases:
                    nr = []
                    for r in rest:
                        yes, no = self.split(r, ('eq', l - cv) if l is not None else UNK, None)
                        yield dst, [self.phis(b, dst, x) for x in yes]
                        nr += no
                    rest = nr
                yield t.d['default'], [self.phis(b, t.d['default'], x) for x in rest]

    def phis(self, b, succ, S):
        if S.dead():
            return S
        ints, ptrs = [], []
        S0 = S
        for i in self.fn.blocks[succ]:
            if i.op != 'phi':
                break
            o = next(o for pb, o in i.ops if pb == b)
            if i.id not in self.relevant:
                continue
            if i.ty in ('i32', 'i64', 'i16', 'i8'):
                ints.append((self.vn(i.id), self.lin(o)))
            elif i.ty == 'i1':
                l = Lin(o[1]) if o[0] == 'c' else None
                if l is None and o[0] == 'v' and o[1] in self.fn.defs and self.fn.defs[o[1]].op == 'phi':
                    l = Lin.var(self.vn(o[1]))
                ints.append((self.vn(i.id), l))
            elif i.ty == 'ptr':
                ptrs.append((i, o))
        key = S.key
        for i, o in ptrs:
            bs = self.bases(i.id)
            p = self.ptr(o, S0)
            if len(bs) > 1 and o[0] != 'undef':
                base = p[0] if p else None
                if base is not None and base[0] == 'heap' and self.heapnull(base, S0) is True:
                    base = ('null',)
                key = frozenset(t for t in key if not (t[0] == 'p' and t[1] == i.id and t[3] == self.pre)) | {('p', i.id, base, self.pre)}
            ints.append((self.vn(i.id), p[1].div(8) if p else None))
        if key != S.key:
            S = S.with_(key=key)
        # simultaneous assignment
        ints = [(v, l) for v, l in ints if not (l is not None and l.t == {v: 1} and l.c == 0)]
        if not ints:
            return S
        p = S.p
        names = [v for v, _ in ints]
        ren = {}
        cs = []
        for v, l in ints:
            if l is not None:
                ren[v + "'"] = v
                cs.append((Lin.var(v + "'") - l, True))
        p = p.add(*cs).eliminate(names).rename(ren)
        # FP loads referenced by loop-carried values stay per state
        return S.with_(p=p)

    # ------------------------------------------------------------ loops
    def preds_of(self, h):
        """affine in-loop conditions over the head's variables: the phase predicates of the loop"""
        if h in self.loopinfo:
            return self.loopinfo[h]
        body = self.heads[h]
        fn = self.fn
        inside = set()
        for b in body:
            for i in fn.blocks[b]:
                if not (b == h and i.op == 'phi'):
                    inside.add(self.vn(i.id))
        headv = {self.vn(i.id) for i in fn.blocks[h] if i.op == 'phi'}
        res = []
        headv = {v for v in headv if int(v.rsplit('v', 1)[1]) in self.relevant}
        for b in sorted(body, key=lambda x: self.rponum.get(x, 0)):
            if self.innermost[b] != h:
                continue
            t = fn.term(b)
            cs = []
            if t.op == 'br' and len(t.succ) == 2 and all(s in body for s in t.succ):
                cs.append(t.ops[0])
            for i in fn.blocks[b]:
                if i.op == 'select' and i.ty in ('i32', 'i64', 'ptr') and i.id in self.relevant:
                    cs.append(i.ops[0])
            for c in cs:
                for a in f_atoms(self.cond(c, None)):
                    if a[0] in ('ge', 'eq', 'ne'):
                        vs = set(a[1].t)
                        if vs & headv and not (vs & inside) and not self.is_static(a[1]):
                            lim = [('ge', a[1])] if a[0] == 'ge' else [('ge', a[1]), ('ge', -a[1])]
                            for x in lim:
                                if x not in res and f_not(x) not in res:
                                    res.append(x)
        # counters first: what depends on the number of iterations only
        ctr = self.counters(h)
        res.sort(key=lambda f: not all(v in ctr for v in f[1].t if v in headv))
        self.loopinfo[h] = res[:4]
        if len(res) > 4:
            self.notes.add('phase cap')
        return self.loopinfo[h]

    def counters(self, h):
        """head variables that change by a constant on every way round"""
        body, res = self.heads[h], {}
        for i in self.fn.blocks[h]:
            if i.op != 'phi':
                break
            if i.ty not in ('i32', 'i64', 'ptr'):
                continue
            v = self.vn(i.id)
            st = set()
            for pb, o in i.ops:
                if pb in body:
                    if i.ty == 'ptr':
                        q = self.ptr(o, None)
                        l = q[1].div(8) if q else None
                    else:
                        l = self.lin(o)
                    st.add(l.c if l is not None and l.t == {v: 1} else None)
            if len(st) == 1 and None not in st:
                res[v] = st.pop()
        return res

    def trip(self, h, states):
        """number of iterations when it is a small constant"""
        t = self.fn.term(h)
        if t.op != 'br' or len(t.succ) != 2:
            return None
        f = self.cond(t.ops[0], None)
        if f[0] not in ('ge', 'ne', 'eq') or len(f[1].t) != 1:
            return None
        v, k = next(iter(f[1].t.items()))
        st = self.counters(h).get(v)
        if not st:
            return None
        stay = t.succ[0] in self.heads[h]
        best = 0
        for s in states:
            e = self.static_value(s.p, v)
            if e is None or e.t:
                return None
            x, n = e.c, 0
            while n <= 17:
                y = k * x + f[1].c
                if (y >= 0 if f[0] == 'ge' else (y == 0) == (f[0] == 'eq')) != stay:
                    break
                x += st
                n += 1
            if n > 17:
                return None
            best = max(best, n)
        return best

    def enter(self, h, states):
        """partition states by the phase predicates of loop h; drop tags that only make sense inside it"""
        body = self.heads[h]
        preds = self.preds_of(h)
        out = []
        for s in states:
            key = frozenset(t for t in s.key if not ((t[0] == 'L' and t[1] == (self.pre, h)) or (t[0] in ('x', 'b') and t[1] == self.pre and t[2] in body)
                                                     or (t[0] == 'L' and t[1][0] == self.pre and t[1][1] in body)))
            cur = [s.with_(key=key)]
            for k, f in enumerate(preds):
                nxt = []
                for x in cur:
                    for y in self.assume(x, f):
                        nxt.append(y.with_(key=y.key | {('L', (self.pre, h), k, True)}))
                    for y in self.assume(x, f_not(f)):
                        nxt.append(y.with_(key=y.key | {('L', (self.pre, h), k, False)}))
                cur = nxt
            out += cur
        return out

    def loop(self, h, states):
        body = self.heads[h]
        outer_rec = all(self.recstack)
        states = [self.kill_dead(s, h) for s in states]
        if self.trip(h, states) is not None:
            # a handful of iterations: one after the other
            cur, res = self.merge(self.zero_materialise(states)), {}
            for _ in range(20):
                if not cur:
                    return res
                back, out = self.region(body, h, {h: cur})
                for t, ss in out.items():
                    res.setdefault(t, []).extend(ss)
                cur = self.merge(self.zero_materialise([self.kill_dead(s, h) for s in back]))
            raise GiveUp('no fixpoint')
        if self.narrow:
            return self.unroll(h, states)
        if self.esplit:
            states = self.entry_split(h, states)
        entry = self.merge(self.zero_materialise(self.enter(h, states)))
        inv = {s.key: s for s in entry}
        # quantities that never change are confined to what they are on entry
        stat = hull([self.static_proj(s.p) for s in entry])
        marks = self.landmarks(h, entry)
        self.recstack.append(False)
        it = 0
        try:
            while True:
                it += 1
                if it > 40:
                    raise GiveUp('no fixpoint')
                back, _ = self.region(body, h, {h: list(inv.values())})
                back = self.zero_materialise(self.enter(h, [self.kill_dead(s, h) for s in back]))
                changed = False
                groups = {}
                for s in back:
                    if not s.dead():
                        groups.setdefault(s.key, []).append(s)
                new = {}
                for k in list(groups):
                    cand = groups[k]
                    if k in inv:
                        cand = self.zero_materialise([inv[k]] + cand)
                        old, cand = cand[0], cand[1:]
                        inv[k] = old
                        mem = old.mem
                        for s in cand:
                            mem = joinmem(mem, s.mem)
                        if mem == old.mem and all(all(s.p.ge(Lin(c, dict(itm))) and (not e or s.p.ge(-Lin(c, dict(itm)))) for e, c, itm in old.p.cons) for s in cand):
                            continue
                        j = self.joinall([old] + cand)
                        j = j.with_(p=j.p.simplify() if it > 2 else j.p)
                        if it >= 3:
                            p = widen(old.p, j.p, marks + self.ranges(old.p, j.p)) if it < 12 else Poly([x for x in old.p.cons if j.p.ge(Lin(x[1], dict(x[2]))) and (not x[0] or j.p.ge(-Lin(x[1], dict(x[2]))))])
                            j = j.with_(p=p.meet(stat))
                        inv[k] = j
                        changed = True
                    else:
                        inv[k] = self.joinall(cand)
                        changed = True
                        if len(inv) > MAXSTATES:
                            raise GiveUp('too many partitions')
                if not changed:
                    break
            # decreasing iterations
            for _ in range(2):
                back, _ = self.region(body, h, {h: list(inv.values())})
                back = self.zero_materialise(self.enter(h, [self.kill_dead(s, h) for s in back]))
                groups = {}
                for s in entry + back:
                    if not s.dead():
                        groups.setdefault(s.key, []).append(s)
                new = {}
                for k, g in groups.items():
                    if k not in inv:
                        new = None
                        break
                    j = self.joinall(self.zero_materialise(g))
                    # stay below the invariant
                    j = j.with_(p=j.p.meet(inv[k].p).simplify(), mem=joinmem(j.mem, inv[k].mem) if j.mem != inv[k].mem else inv[k].mem)
                    new[k] = j
                if new is None or all(k in inv and new[k].p.cons == inv[k].p.cons for k in new) and len(new) == len(inv):
                    break
                inv = new
        finally:
            self.recstack.pop()
        # final pass: exits, and obligations when every enclosing loop is final too
        if outer_rec or self.exacting:
            # exactness of the invariants: assumed of all, withdrawn until consistent (well founded by the rank)
            ranked = self.ranked(h, inv.values())
            if not ranked:
                inv = {k: s.with_(exact=False) for k, s in inv.items()}
            for rnd in range(4):
                if not any(s.exact for s in inv.values()):
                    break
                self.recstack.append(False)
                ex0, self.exacting = self.exacting, True
                back, _ = self.region(body, h, {h: list(inv.values())})
                self.exacting = ex0
                self.recstack.pop()
                back = self.enter(h, [self.kill_dead(s, h) for s in back])
                change = False
                for k, s in inv.items():
                    src = [x for x in entry + back if x.key == k]
                    if s.exact and not (rnd < 3 and all(x.exact for x in src) and s.p.covered([x.p for x in src])):
                        inv[k] = s.with_(exact=False)
                        change = True
                if not change:
                    break
                if rnd == 2:
                    inv = {k: s.with_(exact=False) for k, s in inv.items()}
            self.recstack.append(True)
        else:
            self.recstack.append(False)
        back, out = self.region(body, h, {h: list(inv.values())})
        if back:
            self.terminates(h, [x for x in back if not x.dead()], entry)
        self.recstack.pop()
        return out

    def unroll(self, h, states):
        """loop in a narrow context: one iteration after the other"""
        body = self.heads[h]

        def strip(s):
            return s.with_(key=frozenset(t for t in s.key if not (t[0] in ('x', 'b') and t[1] == self.pre and t[2] in body)))
        cur, res = self.merge(self.zero_materialise([strip(s) for s in states])), {}
        if self.stuck(h):
            back, _ = self.region(body, h, {h: cur})
            for s in back:
                if not s.dead() and s.exact:
                    self.ob('term', self.fn.term(h), 'loop', s, F_, 'no way out of this loop once its body was executed')
        x = self.datalooped(h)
        if x:
            for s in cur:
                if not s.dead() and s.exact:
                    self.ob('term', self.fn.term(h), 'loop', s, F_, 'bar data is carried from one iteration to the next and decides when to leave: %s never does' % x)
        sig = None
        for _ in range(400):
            if not cur:
                return res
            back, out = self.region(body, h, {h: cur})
            left = False
            for t, ss in out.items():
                res.setdefault(t, []).extend(ss)
                left = left or any(not s.dead() for s in ss)
            cur = self.merge(self.zero_materialise([strip(self.kill_dead(s.with_(p=s.p.pin()), h)) for s in back]))
            new = {(s.key, s.p.cons, repr(sorted(s.mem.items(), key=repr))) for s in cur if not s.dead()}
            if new and new == sig:
                # nothing tracked changes any more
                if not left and all(s.exact for s in cur):
                    self.ob('term', self.fn.term(h), 'loop', cur[0], F_, 'the loop repeats without a change and without a way out')
                return res
            sig = new
            for t in res:
                if len(res[t]) > 24:
                    res[t] = self.merge(self.zero_materialise(res[t]))
        raise GiveUp('no fixpoint')

    def terminates(self, h, back, entry):
        """obligation: some counter moves by a constant every time round and is bounded where it moves to"""
        if self.mute or not self.recording_now() or not back:
            return
        body, fn = self.heads[h], self.fn
        i0 = fn.term(h)
        ctr = self.counters(h)
        for v, st in ctr.items():
            if st and all(self.bounded(s.p, v, st < 0, body) for s in back):
                self.ob('term', i0, 'loop', back[0], T)
                return
        if self.datalooped(h):
            self.ob('term', i0, 'loop', entry[0], None, 'bar data carried from one iteration to the next decides when it ends')
            return
        self.ob('term', i0, 'loop', entry[0], None, 'no bounded counter found')
        if self.recording_now():
            o = self.obs[('term', self.pre, i0.id, 'loop')]
            if len(o.bad) < 4:
                o.bad += [s.p for s in entry]

    def datalooped(self, h):
        """a NaN or an infinity computed from bars and carried round the loop keeps it going for ever: the exceptional
        value that does so, or None"""
        body, fn = self.heads[h], self.fn
        phis = [i for i in fn.blocks[h] if i.op == 'phi' and i.ty == 'double']
        carried = [i.id for i in phis if any(pb not in body and self.fp(x) is DATA for pb, x in i.ops)]
        exits = []
        for b in body:
            t = fn.term(b)
            if t.op in ('ret', 'unreachable', 'resume'):
                return None
            if t.op not in ('br', 'switch', 'invoke') or all(x in body for x in fn.succs[b]):
                continue
            if t.op != 'br' or len(t.succ) != 2:
                return None
            exits.append(t)
        for bad in ('nan', '+inf', '-inf') if carried and exits else ():
            env = {c: bad for c in carried}
            if all(self.exceptional(t.ops[0], body, env) is (t.succ[0] in body) for t in exits) and \
               all(self.exceptional(x, body, env) == bad for i in phis if i.id in env for pb, x in i.ops if pb in body):
                return bad
        return None

    def exceptional(self, o, body, env):
        """value of o inside the loop: 'nan', '+inf', '-inf', 'fin' (nothing exceptional), a bool for conditions, None unknown"""
        if o[0] != 'v':
            return 'fin'
        if o[1] in env:
            return env[o[1]]
        d = self.fn.defs.get(o[1]) if o[1] not in self.argrole else None
        if d is None or d.bb not in body:
            return 'fin' if d is None or d.ty == 'double' else None
        ev = lambda x: self.exceptional(x, body, env)
        if d.op == 'phi':
            if d.bb in self.heads:
                return None
            r = {ev(x) for _, x in d.ops}
            return r.pop() if len(r) == 1 else None
        if d.op == 'fneg':
            return {'+inf': '-inf', '-inf': '+inf'}.get(ev(d.ops[0]), ev(d.ops[0]))
        if d.op in ('fadd', 'fsub', 'fmul', 'fdiv', 'fcmp'):
            x, y = ev(d.ops[0]), ev(d.ops[1])
            if d.op == 'fcmp':
                if x is None or y is None:
                    return None
                if 'nan' in (x, y):
                    return d.pred[0] == 'u'
                if x == y:
                    return None
                big = 1 if x == '+inf' or y == '-inf' else -1
                return {'gt': big > 0, 'ge': big > 0, 'lt': big < 0, 'le': big < 0, 'eq': False, 'ne': True}.get(d.pred[1:])
            if 'nan' in (x, y):
                return 'nan'
            if d.op == 'fsub':
                y = {'+inf': '-inf', '-inf': '+inf'}.get(y, y)
            if d.op in ('fadd', 'fsub') and x is not None and y is not None:
                z = {x, y} - {'fin'}
                return z.pop() if len(z) == 1 else None if not z else 'nan'
            return None
        if d.op == 'xor' and d.ty == 'i1' and list(d.ops[1]) == ['c', 1] or d.op == 'xor' and d.ty == 'i1' and list(d.ops[1]) == ['c', -1]:
            x = ev(d.ops[0])
            return None if x is None else not x
        if d.op == 'call' and ((d.callee or '').startswith('llvm.fabs') or d.callee == 'fabs'):
            return {'-inf': '+inf'}.get(ev(d.ops[0]), ev(d.ops[0]))
        return None

    def stuck(self, h):
        """no exit condition can change from one iteration to the next, or only away from the exit"""
        body, fn = self.heads[h], self.fn
        ctr = self.counters(h)
        for b in body:
            t = fn.term(b)
            if t.op in ('ret', 'unreachable', 'resume'):
                return False
            if t.op not in ('br', 'switch', 'invoke') or all(x in body for x in fn.succs[b]):
                continue
            if t.op != 'br' or len(t.succ) != 2:
                return False
            f = self.cond(t.ops[0], None)
            if t.succ[0] not in body:
                f = f_not(f)
            if f[0] == 'ge':
                d = 0
                for v, k in f[1].t.items():
                    if v in ctr:
                        d += k * ctr[v]
                    elif not self.outside(v, body):
                        d = None
                        break
                if d is None or d < 0:
                    return False
            else:
                return False
        return True

    def outside(self, v, body):
        """variable that does not change while the loop runs"""
        if v in self.static or v[0] in 'OFCt':
            return True
        if v.startswith(self.pre + 'v') and v[len(self.pre) + 1:].isdigit():
            d = self.fn.defs.get(int(v[len(self.pre) + 1:]))
            return d is None or d.bb not in body
        return False

    def ranges(self, old, new):
        """bounds of single changing quantities (against what never changes) that hold before and after"""
        vs = [v for v in old.vars() if v.startswith('z:vec.') or not (v in self.static or v[0] in 'OFCtz')]
        res = []
        moved = {v for x in old.cons ^ new.cons for v, _ in x[2]}
        for v in vs:
            if v not in moved:
                continue
            if time.time() > self.deadline:
                raise GiveUp('time limit')
            if v.startswith('c:') or v.startswith('z:') or len(vs) <= 12:
                q = old.eliminate([x for x in vs if x != v])
                for e, c, it in q.cons or ():
                    if any(x == v for x, _ in it):
                        l = Lin(c, dict(it))
                        res += [l, -l] if e else [l]
        return res

    def landmarks(self, h, entry):
        """bounds worth keeping when widening: head variables against their entry values"""
        res = []
        for i in self.fn.blocks[h]:
            if i.op != 'phi':
                break
            if i.ty not in ('i32', 'i64', 'ptr'):
                continue
            v = self.vn(i.id)
            for s in entry:
                e = self.static_value(s.p, v)
                if e is not None:
                    for l in (Lin.var(v) - e, e - Lin.var(v)):
                        if l not in res:
                            res.append(l)
        for s in entry:             # iterators stay between the first and the past-the-end position
            for k, v in s.mem.items():
                if isinstance(v, tuple) and v and v[0] in ('p', 'pv') and v[1][0] == 'vec' and isinstance(k[0], tuple):
                    l = Lin(0, {'z:vec.' + v[1][1]: 1}) - Lin(0, {cellvar(*k): 8})
                    if l not in res:
                        res += [l, Lin.var(cellvar(*k))]
        t = self.fn.term(h)
        for f in self.preds_of(h):
            res += [f[1], -f[1] - 1]
        if t.op == 'br' and len(t.succ) == 2:
            for a in f_atoms(self.cond(t.ops[0], None)):
                if a[0] == 'ge':
                    for l in (a[1], a[1] + 1, -a[1], -a[1] - 1):
                        if l not in res:
                            res.append(l)
        return res

    def static_value(self, p, v):
        """expression of v over quantities that never change, when an equality gives one"""
        for e, c, it in p.cons or ():
            if not e:
                continue
            d = dict(it)
            k = d.get(v)
            if k in (1, -1) and all(w == v or w in self.static or w[0] in 'OFCt' for w in d):
                return Lin(c, {w: x for w, x in it if w != v}) * -k
        return None

    def entry_split(self, h, states):
        """separate the states that never enter the loop body, when that depends on constant quantities only"""
        t = self.fn.term(h)
        if t.op != 'br' or len(t.succ) != 2:
            return states
        ats = [a for a in f_atoms(self.cond(t.ops[0], None)) if a[0] in ('ge', 'eq', 'ne')]
        for a in ats:
            nxt = []
            for s in states:
                l = a[1]
                for v in list(l.t):
                    if not (v in self.static or v[0] in 'OFCt'):
                        e = self.static_value(s.p, v)
                        if e is None:
                            l = None
                            break
                        l = l.subst(v, e)
                if l is None or not l.t:
                    nxt.append(s)
                    continue
                yes, no = self.split(s, (a[0], l))
                nxt += yes + no
            states = nxt
        return states

    def static_proj(self, p):
        return p.eliminate([v for v in p.vars() if not (v in self.static or v[0] in 'OFCt')]).simplify()

    def ranked(self, h, states):
        """some head counter strictly grows (or falls) by a constant on every back edge and has a bound on the
        other side: going backwards every state of the invariant leads to an entry state"""
        body = self.heads[h]
        for i in self.fn.blocks[h]:
            if i.op != 'phi':
                break
            if i.ty not in ('i32', 'i64', 'ptr'):
                continue
            v = self.vn(i.id)
            ok = None
            for pb, o in i.ops:
                if pb in body:
                    if i.ty == 'ptr':
                        p = self.ptr(o, None)
                        l = p[1].div(8) if p else None
                    else:
                        l = self.lin(o)
                    if l is None or l.t != {v: 1} or not l.c or (ok is not None and ok != (l.c > 0)):
                        ok = 'no'
                        break
                    ok = l.c > 0
            if ok in (True, False) and all(self.bounded(s.p, v, ok) for s in states):
                return True
        return False

    def bounded(self, p, v, below, body=None):
        """v has a bound below (above) in terms of quantities that never change (while the loop body runs)"""
        q = p.eliminate([w for w in p.vars() if w != v and not (self.outside(w, body) if body else (w in self.static or w[0] in 'OFCt'))])
        for e, c, it in q.cons or ():
            k = dict(it).get(v)
            if k and (e or (k > 0) == below):
                return True
        return q.cons is None


def const_fold(op, ts):
    """constant arithmetic, as the machine does it"""
    if not all(isinstance(t, FPA) and not t.s and not t.l.t for t in ts):
        return None
    xs = [float(t.l.c + t.f) for t in ts]
    try:
        if op == 'fdiv':
            r = xs[0] / xs[1]
        elif op == 'fmul':
            r = xs[0] * xs[1]
        elif op == 'fadd':
            r = xs[0] + xs[1]
        elif op == 'fsub':
            r = xs[0] - xs[1]
        elif op == 'fneg':
            r = -xs[0]
        elif op == 'fmuladd':
            r = xs[0] * xs[1] + xs[2]
        elif op in ('floor', 'ceil', 'trunc', 'sqrt', 'log', 'exp', 'cos', 'sin', 'tan', 'atan', 'pow', 'fabs', 'log10', 'log2'):
            r = float(getattr(math, op)(*xs))
        elif op == 'round':
            r = float(math.floor(abs(xs[0]) + 0.5)) * (1 if xs[0] >= 0 else -1)
        elif op in ('maxnum', 'fmax'):
            r = max(xs)
        elif op in ('minnum', 'fmin'):
            r = min(xs)
        else:
            return None
    except (ArithmeticError, ValueError):
        return None
    if r != r or abs(r) > 1e15:
        return None
    return FPA(0, None, Lin(0), Fraction(r))


PUREMATH = {'sqrt', 'pow', 'log', 'cos', 'sin', 'atan', 'acos', 'asin', 'tan', 'exp', 'fabs', 'floor', 'ceil', 'round', 'cosh', 'sinh', 'tanh', 'log10', 'log2',
            'fmod', 'atan2', 'fmax', 'fmin', 'trunc', 'exp2', 'cbrt', 'hypot', 'log1p', 'expm1', 'abs', 'labs', 'isnan', 'rint', 'nearbyint', 'copysign', 'ldexp', 'remainder'}
FPMATH = {'sin', 'cos', 'tan', 'atan', 'atan2', 'exp', 'log', 'pow', 'sqrt', 'fabs', 'floor', 'ceil', 'fmod', 'trunc', 'round', 'asin', 'acos', 'fmin', 'fmax', 'log10', 'tanh'}
CONTRE = re.compile(r'^_ZNK?St(5dequeIdSaIdEE|5queueIdSt5dequeIdSaIdEEE|6vectorIdSaIdEE|8multisetIdSt4lessIdESaIdEE)(.*)$')
CONTAINER = {'5dequeI': 80, '8multis': 48, '3setIdS': 48, '5queueI': 80, '6vector': 24}


def _has_mem(t):
    if isinstance(t, tuple):
        if t and t[0] == 'mem':
            return True
        return any(_has_mem(x) for x in t)
    return False


def _term_static(t, num):
    if t is DATA:
        return False
    if isinstance(t, FPA):
        return num.is_static(t.l)
    if isinstance(t, tuple):
        if t and t[0] == 'mem':
            return False
        if t and t[0] == 'A' and len(t) == 5:
            return all(v in num.static or v[0] in 'OFCt' for v, _ in t[3][1])
        return all(_term_static(x, num) for x in t if isinstance(x, tuple))
    return True


def _rebuild(t, num, S):
    """replace ('mem', v) leaves; the arithmetic normal form is rebuilt where possible"""
    if isinstance(t, tuple):
        if t and t[0] == 'mem':
            r = S.mem.get(('fl', num.pre, t[1]), DATA)
            return r
        if t and t[0] == 'A' and len(t) == 5:
            return FPA(t[1], t[2], Lin(t[3][0], dict(t[3][1])), t[4])
        if t and t[0] == 'k':
            return t
        if t and t[0] in ('fadd', 'fsub', 'fmul', 'fdiv', 'fneg', 'frem', 'call'):
            st = 2 if t[0] == 'call' else 1
            xs = [_rebuild(x, num, S) for x in t[st:]]
            if any(x is DATA for x in xs):
                return DATA
            if all(isinstance(x, FPA) for x in xs):
                if t[0] == 'fneg':
                    return xs[0].neg()
                if t[0] in ('fadd', 'fsub'):
                    r = xs[0].add(xs[1] if t[0] == 'fadd' else xs[1].neg())
                    if r is not None:
                        return r
                if t[0] == 'fmul':
                    for a, b in ((xs[0], xs[1]), (xs[1], xs[0])):
                        if not a.s and not a.l.t:
                            c = a.l.c + a.f
                            if c == 1:
                                return b
                            if c == -1:
                                return b.neg()
                            if not b.s and c.denominator == 1 and b.f == 0:
                                return FPA(0, None, b.l * int(c))
            return t[:st] + tuple(num.tkey(x) for x in xs)
    return t


def int_options(fn, num):
    """options whose truncated value the function uses"""
    r = set()
    for i in fn.all():
        if i.op in ('fptosi', 'fptoui'):
            t = num.fp(i.ops[0])
            if t is not DATA:
                r |= _opts_in(t)
    return r


def _opts_in(t):
    if isinstance(t, FPA):
        t = t.key()
    r = set()
    if isinstance(t, tuple):
        if len(t) == 5 and t[0] == 'A':
            if t[1]:
                r.add(t[2])
            for v, _ in t[3][1]:
                if v[0] in 'OFC' and v[1:].isdigit():
                    r.add(int(v[1:]))
        else:
            for x in t:
                r |= _opts_in(x)
    return r


def entry_states(ind, ints):
    """relations between the integer views of each option r_k: F = floor, C = ceil, O = trunc.  The sign of an
    option that is used as an integer is part of the partition key."""
    states = [(Poly.universe(), frozenset())]
    for k in range(ind.nopt):
        Fv, Cv, O = Lin.var('F%d' % k), Lin.var('C%d' % k), Lin.var('O%d' % k)
        nxt = []
        for p, key in states:
            p = p.add((Cv - Fv, False), (Fv - Cv + 1, False))
            if k not in ints:
                nxt.append((p, key))
                continue
            if len(ints) > 3:
                nxt.append((p.add((O - Fv, False), (Cv - O, False)), key))
                continue
            nxt.append((p.add((Fv, False), (O - Fv, True)), key | {('o', k, True)}))
            nxt.append((p.add((-Fv - 1, False), (O - Cv, True)), key | {('o', k, False)}))
        states = nxt
    return states
