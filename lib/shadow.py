"""Dependence and definedness of values in narrow entry contexts: which bars each output may and must be computed from.

Every value carries two bit sets: what it certainly derives from and what it may derive from (bit 0: something not
tracked, bit 1: memory that was never initialised, bit 2 + bar * inputs + input: a bar), and its normal form (vals)."""
import num, numdrv, numst, vals
from num import Num, T, F_, FPA, DATA

UNK, UND = 1, 2
NONE = (0, 0, None)
ZERO = (0, 0, vals.const(0))
LOST = (0, UNK, None)
UNDEF = (UND, UND, None)


def join(a, b):
    return a if a == b else (a[0] & b[0], a[1] | b[1], a[2] if a[2] == b[2] else None)


def both(a, b):
    return (a[0] | b[0], a[1] | b[1], None)


def _int(f):
    def g(*a):
        if any(x is None for x in a):
            return None
        a = [x.const() for x in a]
        if any(x is None or abs(x) >= 1 << 53 for x in a):
            return None
        r = f(*(int(x) for x in a))
        return vals.const(r) if r is not None and abs(r) < 1 << 31 else None
    return g


INTS = {'add': vals.add, 'sub': lambda a, b: vals.add(a, b, -1.0), 'mul': vals.mul,
        'sdiv': _int(lambda a, b: None if not b else int(a / b)), 'shl': _int(lambda a, b: a << b if 0 <= b < 31 else None),
        'srem': _int(lambda a, b: None if not b else a - b * int(a / b)),
        'ashr': _int(lambda a, b: a >> b if 0 <= b < 64 else None), 'lshr': _int(lambda a, b: a >> b if a >= 0 and 0 <= b < 64 else None),
        'udiv': _int(lambda a, b: a // b if a >= 0 and b > 0 else None),
        'sext': lambda a: a, 'zext': _int(lambda a: a if a >= 0 else None), 'trunc': lambda a: a, 'freeze': lambda a: a}


class Shadow(Num):
    """Num with shadows; keys in State.mem: ('sh', prefix, ssa id), ('sc', base, offset), ('sa', base) stored to at unknown offsets"""

    KEEP, APART = 40, True

    def setup(self, gls, bar0=0):
        self.gls, self.bar0 = gls, bar0
        self._pinned = (None, {})
        self._kept = {}
        self.gate = None
        self.outs = {}          # (output, absolute element of this call) -> (must, may, where)
        self.undef = {}         # instruction -> text
        return self

    def ptr(self, o, S):
        r = super().ptr(o, S)
        if r is None and S is not None and o[0] == 'v' and o[1] in self.fn.defs and self.fn.defs[o[1]].op in ('phi', 'select'):
            return S.mem.get(('pl', self.pre, o[1]))
        return r

    def point(self, S, i, o, S0):
        """pointer phi or select i := o, when only this state knows where it points"""
        p = self.ptr(o, S0)
        c = None if p is None else p[1].const() if p[1].const() is not None else self.fixed(S0, p[1])
        k = ('pl', self.pre, i.id)
        x = None if c is None else (p[0], num.Lin(c))
        if S.mem.get(k) == x:
            return S
        mem = {a: b for a, b in S.mem.items() if a != k}
        if x:
            mem[k] = x
        return S.with_(mem=mem)

    def assign_ptr(self, S, i, o, S0):
        return self.point(super().assign_ptr(S, i, o, S0), i, o, S0)

    def kept(self, b):
        """values whose shadow may still be asked for in or after block b"""
        if b not in self._kept:
            todo, live = list(self.livein[b]), set()
            while todo:
                v = todo.pop()
                if v in live:
                    continue
                live.add(v)
                i = self.fn.defs.get(v)
                if i is not None and i.ty not in ('double', 'ptr') and i.op != 'phi':      # conditions and numbers are looked through
                    todo += [o[1] for o in i.ops if isinstance(o, (list, tuple)) and o and o[0] == 'v']
            for i in self.fn.blocks[b]:
                if i.op != 'phi':
                    break
                live.add(i.id)
            self._kept[b] = live
        return self._kept[b]

    def kill_dead(self, S, b):
        S = super().kill_dead(S, b)
        live = self.kept(b)
        dead = [k for k in S.mem if k[0] == 'sh' and k[1] == self.pre and k[2] not in live]
        return S.with_(mem={k: v for k, v in S.mem.items() if not (k[0] == 'sh' and k[1] == self.pre and k[2] not in live)}) if dead else S

    def fixed(self, S, off):
        r = super().fixed(S, off)
        if r is None and off.t and len(off.t) <= 3:
            if self._pinned[0] is not S.p:
                self._pinned = (S.p, {it[0][0]: -c // it[0][1] for e, c, it in S.p.pin().cons or () if e and len(it) == 1 and c % it[0][1] == 0})
            v = self._pinned[1]
            if all(x in v for x in off.t):
                return off.c + sum(k * v[x] for x, k in off.t.items())
        return r

    # ---------------------------------------------------------------- values
    def sh(self, o, S):
        if o[0] == 'undef':
            return UNDEF if S.exact else LOST
        if o[0] != 'v':
            return (0, 0, self.known(o, S))
        v = S.mem.get(('sh', self.pre, o[1]))
        if v is None:
            return (0, 0, self.known(o, S))
        return v

    def known(self, o, S):
        """normal form of a value fixed by the options"""
        if o[0] == 'v':
            i = self.fn.defs.get(o[1])
            if i is None or i.ty != 'double':
                return None
        t = self.fpS(o, S)
        if isinstance(t, FPA) and not t.s:
            c = self.fixed(S, t.l) if t.l.t else t.l.c
            return None if c is None else vals.const(c + t.f)
        if isinstance(t, tuple) and t[:1] == ('k',):
            return vals.const(float.fromhex(t[1]) if 'x' in t[1] else float(t[1]))
        return None

    def barbit(self, k, c):
        """input k at element c of this call"""
        b = (self.bar0 + c) * self.ind.nin + k
        return (1 << b + 2, 1 << b + 2, vals.bar(b))

    def truth(self, o, S):
        """normal form of a condition: one where it holds"""
        if o[0] == 'c':
            return vals.const(1 if o[1] else 0)
        i = self.fn.defs.get(o[1]) if o[0] == 'v' else None
        if i is None:
            return None
        if i.op == 'fcmp':
            pr = i.pred
            a, b = self.sh(i.ops[0], S)[2], self.sh(i.ops[1], S)[2]
            d = vals.add(a, b, -1.0)
            c = d.const() if d is not None else None
            if c is not None and a.const() is not None:
                return vals.const({'eq': c == 0, 'ne': c != 0, 'lt': c < 0, 'le': c <= 0, 'gt': c > 0, 'ge': c >= 0}.get(pr[1:], pr == 'ord'))
            if pr in ('uno', 'false', 'oeq', 'ueq'):
                return vals.const(0)
            if pr in ('ord', 'true', 'one', 'une'):
                return vals.const(1)
            if d is None or c == 0:
                return None
            return vals.step(d if pr[1:] in ('gt', 'ge') else vals.scale(d, -1.0))
        if i.op == 'icmp':
            a, b = (self.inum(x, S) for x in i.ops)
            d = vals.add(a, b, -1.0)
            if d is None:
                return None
            lt = lambda x, k: vals.step(vals.add(vals.scale(x, -1.0), vals.const(k)))      # x < k
            n = vals.scale(d, -1.0)
            pr = i.pred[-2:]
            if pr in ('lt', 'le'):
                return lt(d, -.5 if pr == 'lt' else .5)
            if pr in ('gt', 'ge'):
                return lt(n, -.5 if pr == 'gt' else .5)
            e = vals.mul(lt(d, .5), lt(n, .5))
            return e if pr == 'eq' else vals.add(vals.const(1), e, -1.0)
        if i.op in ('and', 'or', 'xor') and i.ty == 'i1':
            a, b = (self.truth(x, S) for x in i.ops)
            p = vals.mul(a, b)
            if i.op == 'and':
                return p
            return vals.add(vals.add(a, b), p, -1.0 if i.op == 'or' else -2.0)
        if i.op == 'select' and i.ty == 'i1':
            return vals.choose(*(self.truth(x, S) for x in i.ops))
        return None

    def put(self, S, i, v):
        k = ('sh', self.pre, i.id)
        if S.mem.get(k) == v:
            return S
        mem = dict(S.mem)
        mem[k] = v
        return S.with_(mem=mem)

    def cell(self, S, base, c):
        v = S.mem.get(('sc', base, c))
        if v is not None:
            return v
        if base[0] == 'g' or base[0] in ('opt', 'ins', 'outs'):
            return NONE
        if ('sm', base) in S.mem:
            return self.rank(S.mem[('sm', base)], c // 8) if S.exact else LOST
        if ('sx', '') in S.mem or ('sa', base) in S.mem:
            return LOST
        if self.zeroed(S, base, c):
            return ZERO
        if base[0] in ('heap', 'alloca', 'stream') and S.exact and S.mem.get((base, c)) is None:
            return UNDEF
        return LOST

    def value(self, i, S):
        """shadow of the value instruction i computes in S"""
        op = i.op
        if op == 'load':
            p = self.ptr(i.ops[0], S)
            if p is None:
                return LOST
            base, off = p
            c = off.const()
            if c is None:
                c = self.fixed(S, off)
            if base[0] == 'g' and i.ty != 'double':
                return NONE
            if base[0] in ('opt', 'ins', 'outs'):
                return (0, 0, self.known(['v', i.id], S))
            return LOST if c is None else self.at(S, base, c)
        if op in ('call', 'invoke'):
            n = i.callee or ''
            if n in num.PUREMATH or n.startswith('llvm.'):
                v = NONE
                for o in i.ops:
                    v = both(v, self.sh(o, S))
                if 'min' in n or 'max' in n:
                    v = (0, v[1], None)
                if i.ty == 'double':
                    ts = [self.sh(o, S)[2] if o[0] != 'c' else vals.const(o[1]) for o in i.ops if o[0] in ('v', 'f', 'c', 'zero')]
                    v = (v[0], v[1], vals.call(n.replace('llvm.', '').replace('.f64', '').replace('.i32', ''), ts))
                return v
            if n in num.ALLOCS:
                return NONE
            return LOST
        if op == 'select':
            f = self.cond(i.ops[0], S)
            a, b = self.sh(i.ops[1], S), self.sh(i.ops[2], S)
            if f == T:
                return a
            if f == F_:
                return b
            if f not in (num.ANY, num.UNK):
                yes, no = self.assume(S, f), self.assume(S, num.f_not(f))
                if not no:
                    return a
                if not yes:
                    return b
            c = self.sh(i.ops[0], S)
            v = join(a, b)
            if i.ty != 'double' and i.ty != 'i1':
                a, b = (x if x[2] is not None else (x[0], x[1], self.inum(o, S)) for x, o in zip((a, b), i.ops[1:]))
            return (v[0], v[1] | c[1], vals.choose(self.truth(i.ops[0], S), a[2], b[2]) if i.ty != 'i1' else None)
        if op == 'getelementptr':
            return NONE
        v = NONE
        for o in i.ops:
            if isinstance(o, (list, tuple)) and o and isinstance(o[0], str):
                v = both(v, self.sh(o, S))
        if i.ty == 'double':
            t = None
            if op in ('fadd', 'fsub', 'fmul', 'fdiv', 'fneg'):
                t = vals.arith(op, [self.sh(o, S)[2] for o in i.ops])
            elif op in ('freeze', 'fpext'):
                t = self.sh(i.ops[0], S)[2]
            elif op in ('sitofp', 'uitofp'):
                t = self.inum(i.ops[0], S)
            v = (v[0], v[1], t)
        elif i.ty in ('i32', 'i64') and op in INTS:
            v = (v[0], v[1], INTS[op](*(self.inum(o, S) for o in i.ops)))
        elif op == 'fptosi':
            t = self.sh(i.ops[0], S)[2]
            v = (v[0], v[1], None if t is None else vals.call('trunc', [t]))
        return v

    def inum(self, o, S):
        """normal form of an integer"""
        if o[0] == 'c':
            return vals.const(o[1])
        if o[0] != 'v':
            return None
        v = S.mem.get(('sh', self.pre, o[1]))
        if v is not None and v[2] is not None:
            return v[2]
        l = self.lin(o)
        c = None if l is None else l.const() if l.const() is not None else self.fixed(S, l)
        return None if c is None else vals.const(c)

    def split(self, S, f, tag=None):
        yes, no = super().split(S, f, tag)
        if self.gate is not None and yes and no:
            c, = self.gate
            if vals.ORDER is not None and c is not None and c.const() is not None:
                return (yes, []) if c.const() else ([], no)
            rc = S.mem.get(('rc', ''), vals.const(1))
            put = lambda x, g: x.with_(mem={**x.mem, ('rc', ''): vals.mul(rc, g)})
            yes = [put(x, c) for x in yes]
            no = [put(x, None if c is None else vals.add(vals.const(1), c, -1.0)) for x in no]
        return yes, no

    def step(self, i, S):
        self.gate = None
        if (i.op == 'select' and i.ty != 'double') or (i.op in ('zext', 'sext') and self._isbool(i.ops[0])):
            if self.sh(i.ops[0], S)[1]:
                self.gate = (self.truth(i.ops[0], S),)
        p = self.ptr(i.ops[0], S) if i.op == 'ptrtoint' and self.memo_lin_me(i) else None
        if p is not None:           # as Num.lin does for pointers known everywhere
            outs = [self.assign(S, self.vn(i.id), p[1] + num.Lin.var('@' + '.'.join(str(x) for x in p[0])))]
        else:
            outs = super().step(i, S)
        self.gate = None
        if i.ty in ('double', 'i32', 'i64', 'i1', 'i8', 'i16') and i.op not in ('store',):
            v = self.value(i, S)
            outs = [self.put(s, i, v) for s in outs]
        return outs

    def pc(self, S):
        """what decides that this point is reached"""
        m = 0
        for k, v in S.mem.items():
            if k[0] == 'pc':
                m |= v
        return m & ~(UNK | UND)

    def under(self, S, v):
        return (v[0], v[1] | self.pc(S), v[2])

    def block(self, b, states):
        here = [c for c, d in self.fn.ipdom.items() if d == b]
        if here:
            states = [self.after(s, here) for s in states]
        return super().block(b, states)

    def after(self, S, branches):
        """S where what the branches decided has come together again"""
        mem = None
        for c in branches:
            if ('pc', self.pre, c) in S.mem:
                mem = dict(S.mem) if mem is None else mem
                del mem[('pc', self.pre, c)]
        return S if mem is None else S.with_(mem=mem)

    def reach(self, S, b, succ, t):
        """S with the condition under which control goes from b to succ"""
        rc = S.mem.get(('rc', ''), vals.const(1))
        if t.op == 'br' and t.succ[0] != t.succ[1]:
            c = self.truth(t.ops[0], S)
            if c is not None and succ == t.succ[1]:
                c = vals.add(vals.const(1), c, -1.0)
        else:
            c = None
        return vals.mul(rc, c)

    def phis(self, b, succ, S):
        if S.dead():
            return S
        t = self.fn.term(b)
        if t.op in ('br', 'switch') and len(self.fn.succs[b]) > 1:
            m = data = self.sh(t.ops[0], S)[1]
            c = self.truth(t.ops[0], S) if m and t.op == 'br' else None
            if c is not None and c.const() is not None:
                m = 0
                if vals.ORDER is not None and S.exact and succ != t.succ[0 if c.const() else 1]:
                    return S.add((num.Lin(-1), False))
            if m & UND and S.exact and self.recording_now() and not self.mute:
                self.undef.setdefault(t.id, (t, 'branch', 'the condition'))
            k = ('pc', self.pre, b)
            if m & ~(UNK | UND) and S.mem.get(k, 0) | m != S.mem.get(k, 0):
                S = S.with_(mem={**S.mem, k: S.mem.get(k, 0) | m})
            if data:
                S = S.with_(mem={**S.mem, ('rc', ''): self.reach(S, b, succ, t)})
        S1 = super().phis(b, succ, S)
        if S1.dead():
            return S1
        ch = {}
        for i in self.fn.blocks[succ]:
            if i.op != 'phi':
                break
            o = next(o for pb, o in i.ops if pb == b)
            if i.ty == 'ptr':
                S1 = self.point(S1, i, o, S)
                continue
            v = self.sh(o, S)
            if v[2] is None and i.ty in ('i32', 'i64') and o[0] != 'undef':
                v = (v[0], v[1], self.inum(o, S))
            v = self.under(S, v)
            if S1.mem.get(('sh', self.pre, i.id)) != v:
                ch[('sh', self.pre, i.id)] = v
        return S1.with_(mem={**S1.mem, **ch}) if ch else S1

    # ---------------------------------------------------------------- memory
    def setcell(self, S, base, c, v, sz=8):
        mem = dict(S.mem)
        if sz == 8:         # fields are aligned: nothing that reaches over c starts at c - 4
            mem.pop(('sc', base, c + 4), None)
        mem[('sc', base, c)] = v
        return S.with_(mem=mem)

    def weak(self, S, base):
        """something of base is overwritten"""
        mem = {k: (LOST if k[0] == 'sc' and k[1] == base else v) for k, v in S.mem.items()}
        mem[('sa', base)] = True
        return S.with_(mem=mem)

    def do_store(self, i, S):
        outs = super().do_store(i, S)
        p = self.ptr(i.ops[1], S)
        v = self.under(S, self.sh(i.ops[0], S))
        if p is None:
            return [s.with_(mem={**{k: (LOST if k[0] == 'sc' else x) for k, x in s.mem.items()}, ('sx', ''): True}) for s in outs]
        base, off = p
        if base[0] in ('in', 'g', 'opt', 'ins', 'outs', 'null', 'out', 'pstream'):
            return outs
        c = off.const()
        if c is None:
            c = self.fixed(S, off)
        if c is None:
            return [self.weak(s, base) for s in outs]
        return [self.setcell(s, base, c, v, i.sz or 8) for s in outs]

    def do_alloc(self, i, S):
        base = ('heap', self.pre + str(i.id))
        mem = {k: v for k, v in S.mem.items() if not (k[0] in ('sc', 'sa') and k[1] == base or k[0] == 'zero' and k[1] == base)}
        outs = super().do_alloc(i, S.with_(mem=mem))
        if i.callee == 'realloc':
            outs = [s.with_(mem={**s.mem, ('sa', base): True}) for s in outs]
        return outs

    def do_memset(self, i, S):
        outs = super().do_memset(i, S)
        p, ln = self.ptr(i.ops[0], S), self.lin(i.ops[2])
        if p is None or p[0][0] in ('out', 'in'):
            return outs
        c = self.fixed(S, p[1]) if p[1].const() is None else p[1].const()
        m = None if ln is None else self.fixed(S, ln) if ln.const() is None else ln.const()
        r = []
        for s in outs:
            if c is not None and ('zero', p[0], c, 1 << 60) in s.mem:
                r.append(s.with_(mem={k: v for k, v in s.mem.items() if not (k[0] == 'sc' and k[1] == p[0] and c <= k[2])}))
                continue
            if c is None or m is None or i.ops[1][0] != 'c':
                r.append(self.weak(s, p[0]))
                continue
            mem = {k: v for k, v in s.mem.items() if not (k[0] == 'sc' and k[1] == p[0] and c <= k[2] < c + m)}
            mem[('zero', p[0], c, c + m)] = True
            r.append(s.with_(mem=mem))
        return r

    def do_memcpy(self, i, S):
        outs = super().do_memcpy(i, S)
        d, s, ln = self.ptr(i.ops[0], S), self.ptr(i.ops[1], S), self.lin(i.ops[2])
        if d is None or d[0][0] in ('out', 'in'):
            return outs
        num_ = lambda l: None if l is None else l.const() if l.const() is not None else self.fixed(S, l)
        c, m = num_(d[1]), num_(ln)
        e = num_(s[1]) if s is not None else None
        if c is None or m is None or e is None or m > 8192:
            return [self.weak(x, d[0]) for x in outs]
        new = {}
        for k in range(0, m, 8):
            if s[0][0] == 'in':
                new[('sc', d[0], c + k)] = self.barbit(s[0][1], (e + k) // 8)
            elif s[0][0] == 'out':
                new[('sc', d[0], c + k)] = S.mem.get(('so', s[0][1], e + k), LOST)
            else:
                v = self.cell(S, s[0], e + k)
                # copying memory that was never written is not a use
                new[('sc', d[0], c + k)] = v
        return [x.with_(mem={**x.mem, **new}) for x in outs]

    def ref(self, o, S):
        """shadow of the double o points to"""
        p = self.ptr(o, S)
        if p is None:
            return LOST
        c = p[1].const() if p[1].const() is not None else self.fixed(S, p[1])
        return LOST if c is None else self.at(S, p[0], c)

    def at(self, S, base, c):
        if base[0] == 'in':
            return self.barbit(base[1], c // 8) if c % 8 == 0 and c >= 0 and S.exact else LOST
        if base[0] == 'out':
            return S.mem.get(('so', base[1], c), LOST)
        if base[0] == 'g':          # the same in every call
            t = self.constants(base[1])
            if t is not None and c % 8 == 0 and 0 <= c < 8 * len(t):
                return (0, 0, vals.const(t[c // 8]))
            return (0, 0, vals.single(vals.atom('global', (base[1], c), vals.const(0), 0)))
        return self.cell(S, base, c)

    TABLES = {}

    def constants(self, g):
        """the doubles a global that is never written consists of"""
        if g not in self.TABLES:
            flat = lambda x: [z for y in x for z in flat(y)] if isinstance(x, list) else [x]
            d = self.gls.get(g, {})
            t = flat(d['init']) if d.get('fixed') and 'init' in d else []
            self.TABLES[g] = t if t and 8 * len(t) == d['size'] and all(isinstance(x, (int, float)) for x in t) else None
        return self.TABLES[g]

    def count(self, S, base):
        z = num.Lin.var('z:' + '.'.join(base))
        c = self.fixed(S, z)
        return None if c is None else c // 8

    def cells(self, S, base, n):
        return [self.cell(S, base, 8 * j) for j in range(n)]

    def refill(self, S, base, cells):
        mem = {k: v for k, v in S.mem.items() if not (k[0] in ('sc', 'sa', 'zero', 'sm') and k[1] == base)}
        if len(cells) > 400:
            mem[('sa', base)] = True
        else:
            mem.update({('sc', base, 8 * j): v for j, v in enumerate(cells)})
        return S.with_(mem=mem)

    def rank(self, els, j):
        """the j-th smallest of els"""
        if not 0 <= j < len(els):
            return LOST
        d, m = els[0][0], 0
        for e in els:
            d, m = d & e[0], m | e[1]
        t = [e[2] for e in els]
        if None in t:
            return (d, m, None)
        o = vals.ranked(t)
        if o is not None:
            e = els[o[j]]
            return (e[0], m, e[2])
        return (d, m, vals.statistic(t, j))

    def do_vec(self, i, S, kind):
        base = self.vecbase(i, S)
        n = self.count(S, base) if base else None
        outs = super().do_vec(i, S, kind)
        if base is None:
            return outs
        tree = '8multiset' in i.callee
        els = S.mem.get(('sm', base)) if tree else None
        if kind in ('ctor0', 'dtor', 'clear'):
            outs = [self.refill(s, base, ()) for s in outs]
            return [s.with_(mem={**s.mem, ('sm', base): ()}) for s in outs] if tree and kind != 'dtor' else outs
        if kind == 'ctor' and len(i.ops) <= 3:
            r = []
            for s in outs:
                mem = {k: v for k, v in s.mem.items() if not (k[0] in ('sc', 'sa', 'zero') and k[1] == base)}
                mem[('zero', base, 0, 1 << 60)] = True
                r.append(s.with_(mem=mem))
            return r
        if tree and els is not None and kind in ('push', 'find', 'erase'):
            if kind == 'push':
                e = els + (self.ref(i.ops[1], S),)
                return [s.with_(mem={**s.mem, ('sm', base): e}) for s in outs]
            if kind == 'find':
                v = self.ref(i.ops[1], S)
                if v[2] is not None and any(e[2] is not None and e[2] == v[2] for e in els):
                    return [s.with_(mem={**s.mem, ('fd', self.pre, i.id): v}, exact=S.exact) for s in outs]
                return outs
            p = self.ptr(i.ops[1], S)
            f = [k for k in S.mem if k[0] == 'fd' and k[1] == self.pre and p is not None and p[1] == num.Lin(0, {self.vn(k[2]): 8})]
            if len(f) == 1:
                v = S.mem[f[0]]
                j = next((j for j, e in enumerate(els) if e[2] is not None and e[2] == v[2]), None)
                if j is not None:
                    e = els[:j] + els[j + 1:]
                    return [s.with_(mem={**{k: x for k, x in s.mem.items() if k != f[0]}, ('sm', base): e}) for s in outs]
        elif not tree and n is not None and n <= 400:
            if kind == 'push':
                v = self.ref(i.ops[1], S)
                c = self.cells(S, base, n)
                return [self.refill(s, base, [v] + c if 'front' in i.callee else c + [v]) for s in outs]
            if kind == 'pop' and n:
                c = self.cells(S, base, n)
                return [self.refill(s, base, c[:-1] if 'pop_back' in i.callee else c[1:]) for s in outs]
            if kind in ('resize', 'assign', 'ctor'):
                l = self.lin(i.ops[1])
                m = None if l is None else self.fixed(S, l) if l.t else l.c
                if m is not None and 0 <= m <= 400:
                    v = ZERO if kind == 'resize' and len(i.ops) == 2 else self.ref(i.ops[2], S)
                    c = self.cells(S, base, min(m, n)) if kind == 'resize' else []
                    return [self.refill(s, base, c + [v] * (m - len(c))) for s in outs]
        if kind in ('size', 'begin', 'end', 'back', 'front', 'find', 'reserve', 'ix', 'data', 'empty'):
            return outs
        outs = [self.weak(s, base) for s in outs]
        return [s.with_(mem={k: v for k, v in s.mem.items() if k != ('sm', base)}) for s in outs] if els is not None else outs

    def reorder(self, i, S):
        """std::sort, std::nth_element"""
        p = [self.ptr(o, S) for o in i.ops]
        c = [None if x is None or x[0] != p[0][0] else x[1].const() if x[1].const() is not None else self.fixed(S, x[1]) for x in p]
        if None in c or p[0][0][0] not in ('alloca', 'heap', 'stream', 'vec') or c[-1] - c[0] > 3200 or any(x % 8 for x in c):
            return None
        base, n = p[0][0], (c[-1] - c[0]) // 8
        els = [self.cell(S, base, c[0] + 8 * j) for j in range(n)]
        if 'nth_element' in i.callee:
            d = m = 0
            for e in els:
                m |= e[1]
            new = [(0, m, None)] * n
            k = (c[1] - c[0]) // 8
            if 0 <= k < n:
                new[k] = self.rank(els, k)
        else:
            new = [self.rank(els, j) for j in range(n)]
        return S.with_(mem={**S.mem, **{('sc', base, c[0] + 8 * j): v for j, v in enumerate(new)}})

    def do_call(self, i, S):
        n = i.callee or ''
        if n.startswith('_ZSt4sortI') and len(i.ops) == 2 or n.startswith('_ZSt11nth_elementI') and len(i.ops) == 3:
            S1 = self.reorder(i, S)
            if S1 is not None:
                return [S1]
        outs = super().do_call(i, S)
        if n in num.PUREMATH or n.startswith('llvm.') or n in num.ALLOCS or n in ('free', 'memcpy', 'memmove') or n.startswith('_Zd') or self.is_vec(i) or self.is_iter(i):
            return outs
        hit = {p[0] for p in (self.ptr(o, S) for o in i.ops if self._isptr(o)) if p and p[0][0] in ('alloca', 'heap', 'stream', 'vec')}
        for b in hit:
            outs = [self.weak(s, b) for s in outs]
        return outs

    # ---------------------------------------------------------------- uses
    def out_write(self, i, S, k, off, nbytes, site):
        outs = super().out_write(i, S, k, off, nbytes, site)
        q = off.const() if off.const() is not None else self.fixed(S, off)
        m = nbytes.const() if nbytes.const() is not None else self.fixed(S, nbytes)
        if q is None or m is None or q % 8:
            return outs
        for e in range(0, m, 8):
            v = ZERO
            if i.op == 'store':
                v = self.sh(i.ops[0], S)
            elif 'memset' not in (i.callee or ''):
                s = self.ptr(i.ops[1], S)
                c = None if s is None else s[1].const() if s[1].const() is not None else self.fixed(S, s[1])
                if c is None:
                    v = LOST
                elif s[0][0] == 'in':
                    v = self.barbit(s[0][1], (c + e) // 8)
                elif s[0][0] == 'out':
                    v = S.mem.get(('so', s[0][1], c + e), LOST)
                else:
                    v = self.cell(S, s[0], c + e)
            if not S.exact:
                v = LOST
            v = self.under(S, v)
            old = S.mem.get(('so', k, q + e))
            outs = [x.with_(mem={**x.mem, ('so', k, q + e): v}) for x in outs]
            if self.recording_now() and not self.mute:
                el = ('o', k, (q + e) // 8)
                if v[1] & UND and S.exact:
                    self.undef.setdefault(i.id, (i, 'output %d' % k, 'element %d' % el[2]))
                o = self.outs.get(el[1:])
                rc = S.mem.get(('rc', ''), vals.const(1))
                t = v[2] if old is None else vals.add(v[2], old[2], -1.0)           # written before on this path
                t = vals.const(0) if rc is not None and not rc.m else vals.mul(rc, t)
                if old is not None:
                    rc = vals.const(0)
                if o is None:
                    self.outs[el[1:]] = [v[0], v[1], t, rc, i]
                else:
                    self.outs[el[1:]] = [o[0] & v[0], o[1] | v[1], vals.add(o[2], t), vals.add(o[3], rc), i]
        return outs


def final(o):
    """(must, may, form), instruction"""
    one = o[3] is not None and o[3].const() == 1
    return (o[0], o[1], o[2] if one else None), o[4]


# -------------------------------------------------------------------- drivers
def batch_outs(ctx, ind, kind, at, timeout=10):
    """Shadow after a narrow batch call, or None"""
    keep, gls = [], ctx.prog('flat', ('--norot',))[1]

    def make(*a, **k):
        keep.append(Shadow(*a, **k).setup(gls))
        return keep[-1]
    obs, info = numdrv.batch(ctx, ind, kind, timeout=timeout, at=at, make=make)
    keep[0].outs = {k: final(v) for k, v in keep[0].outs.items()}
    return keep[0], info


class ShadowStream(numst.Stream):
    def __init__(self, ctx, *a, **k):
        super().__init__(ctx, *a, **k)
        gls = ctx.prog('flat', ('--norot',))[1]
        self.made = []
        self.bar0 = 0

        def make(fn, kind, *x, **y):
            s = Shadow(fn, kind, *x, **y).setup(gls, self.bar0)
            self.made.append((kind, s))
            return s
        self.make = make

    def trace(self, sizes, start):
        """{(output, element of the whole series): ((must, may), instruction)}, {undefined uses}"""
        outs, undef = {}, {}
        self.bar0 = 0
        cur = self.construct()
        for n in sizes:
            a = self.num('run', '')
            a.room = None
            res = self.finish(a, a.run([self.call(a, s, n) for s in cur]))
            first = max(self.bar0, start) - start
            for (k, q), v in a.outs.items():
                outs[(k, first + q)] = final(v)
            cur = a.merge(a.zero_materialise([numst.boundary(s) for s in res]))
            self.bar0 += n
            if not cur:
                break
        for _, s in self.made:
            undef.update(s.undef)
        return outs, undef
