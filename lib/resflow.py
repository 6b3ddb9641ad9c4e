"""Path-sensitive typestate of one acquisition site in a flattened function: what happens to the object on
every path (released / handed over / leaked / used after release) and what happens when the acquisition fails."""
import ssa, effects

BADALLOC_CATCH = {'_ZTISt9bad_alloc', '_ZTISt9exception'}


class May:
    """which opaque callees can fail with std::bad_alloc"""

    def __init__(self, fns):
        self.fns = fns
        self.memo = {}

    def throws(self, name):
        if name in ssa.NEWS or name in ssa.NEWS_AL:
            return True
        if name not in self.fns:
            return False
        if name in self.memo:
            return self.memo[name]
        self.memo[name] = False
        r = False
        # transitive closure by a simple search
        seen, work = {name}, [name]
        while work and not r:
            n = work.pop()
            d = self.fns.get(n)
            if d is None:
                continue
            for bl in d['blocks']:
                for i in bl:
                    c = i.get('callee')
                    if not c:
                        continue
                    if c in ssa.NEWS or c in ssa.NEWS_AL:
                        r = True
                    elif c in self.fns and c not in seen:
                        seen.add(c)
                        work.append(c)
        self.memo[name] = r
        return r


class Site:
    """kind: 'ptr' (returns pointer or null) or 'throw' (operator new) or 'op' (opaque callee that allocates)"""

    def __init__(self, i, kind, family):
        self.i, self.kind, self.family = i, kind, family


def sites(fn, may):
    res = []
    for i in fn.all():
        if i.op in ('call', 'invoke') and i.callee:
            c = i.callee
            if c in ssa.MALLOCS or c in ssa.NEWS_NT:
                res.append(Site(i, 'ptr', ssa.alloc_family(c)))
            elif c in ssa.NEWS or c in ssa.NEWS_AL:
                res.append(Site(i, 'throw', ssa.alloc_family(c)))
            elif may.throws(c):
                res.append(Site(i, 'op', None))
    return res


LIVE, FREED, NULLED, FAILED, GONE = 'live', 'freed', 'null', 'failed', 'gone'


class Flow:
    def __init__(self, fn, kind, P, may):
        self.fn, self.kind, self.P, self.may = fn, kind, P, may
        self.undecided = 0   # exits whose return value the path state does not determine
        # SSA objects stored into *pstream are "the stream"
        self.canon = {}
        for i in fn.all():
            if i.op == 'store' and i.vty == 'ptr' and ('pstream',) in P.bases(i.ops[1]):
                r = self.root0(i.ops[0])
                if r is not None:
                    self.canon[r] = 'stream'
            if i.op == 'load' and i.ty == 'ptr' and ('pstream',) in P.bases(i.ops[0]):
                self.canon[i.id] = 'stream'
        if kind in ('run', 'free'):
            self.canon[fn.args[0]] = 'stream'
        # integer phis feeding the return value
        self.retphis = set()
        for i in fn.all():
            if i.op == 'ret' and i.ops:
                self._rp(i.ops[0])
        # any integer phi with constant inputs can carry the decision (cleanup.dest slots)
        for i in fn.all():
            if i.op == 'phi' and i.ty in ('i32', 'i1', 'i8', 'i64') and any(o[0] == 'c' for _, o in i.ops):
                self.retphis.add(i.id)

        # loop counters that select a slot of a table of pointers are followed by value
        self.idxphis = set()
        for i in fn.all():
            if i.op in ('load', 'store') and (i.ty if i.op == 'load' else i.vty) == 'ptr':
                o = i.ops[0] if i.op == 'load' else i.ops[1]
                for _ in range(8):
                    g = o if o[0] == 'gep' else fn.defs[o[1]].gep if o[0] == 'v' and o[1] in fn.defs and fn.defs[o[1]].op == 'getelementptr' else None
                    if g is None:
                        break
                    for x in g[3]:
                        self._ip(x[0], 0)
                    o = g[1]
        self.retphis |= self.idxphis

    def _ip(self, o, depth):
        if o[0] == 'v' and o[1] in self.fn.defs and depth < 12:
            i = self.fn.defs[o[1]]
            if i.op == 'phi':
                if i.id not in self.idxphis and i.ty != 'ptr':
                    self.idxphis.add(i.id)
                    for _, q in i.ops:
                        self._ip(q, depth + 1)
            elif i.op in ('add', 'sub', 'sext', 'zext', 'trunc', 'mul', 'shl'):
                for q in i.ops:
                    self._ip(q, depth + 1)

    def _rp(self, o):
        if o[0] == 'v' and o[1] in self.fn.defs and o[1] not in self.retphis:
            i = self.fn.defs[o[1]]
            if i.op == 'phi':
                self.retphis.add(i.id)
                for _, q in i.ops:
                    self._rp(q)

    def root0(self, o):
        while True:
            if o[0] == 'gep':
                o = o[1]
            elif o[0] == 'v' and o[1] in self.fn.defs and self.fn.defs[o[1]].op == 'getelementptr':
                o = self.fn.defs[o[1]].gep
            elif o[0] == 'v' and o[1] in self.fn.defs and self.fn.defs[o[1]].op in ('bitcast', 'addrspacecast', 'freeze'):
                o = self.fn.defs[o[1]].ops[0]
            elif o[0] == 'v':
                return o[1]
            else:
                return None

    def cellof(self, o, val=None):
        root, c = self.P.off(o)
        if root[0] == 'v' and c is None and val is not None:
            c, root = 0, o
            while True:
                g = root if root[0] == 'gep' else self.fn.defs[root[1]].gep if root[0] == 'v' and root[1] in self.fn.defs and self.fn.defs[root[1]].op == 'getelementptr' else None
                if g is None:
                    break
                c += g[2]
                for x in g[3]:
                    q, sc = x
                    v = val(q)
                    if not isinstance(v, int):
                        return None
                    c += v * sc
                root = g[1]
        if root[0] != 'v' or c is None:
            return None
        b = root[1]
        return (self.canon.get(b, b), c)

    def analyse(self, site):
        """yields (rule, message, instruction)"""
        fn = self.fn
        h = site.i.id
        out = {}
        start = []
        E = frozenset()
        if site.i.op == 'invoke':
            if site.kind == 'ptr' or site.kind == 'throw':
                start.append((site.i.bb, site.i.normal, (LIVE, E, E, E)))
                if site.kind == 'ptr':
                    start.append((site.i.bb, site.i.normal, (NULLED, E, E, E)))
            if site.kind != 'ptr':
                start.append((site.i.bb, site.i.unwind, (FAILED, E, E, E)))
        else:
            if site.kind in ('throw', 'op'):
                out[('escape', site.i.id)] = ('exception-escapes', 'std::bad_alloc thrown by %s leaves the function' % short(site.i), site.i)
        work = []
        seen = set()

        def push(b, pos, st):
            k = (b, pos, st)
            if k not in seen:
                seen.add(k)
                work.append(k)

        def edge(p, b, st):
            status, A, Z, K = st
            A2, Z2, K2, K0 = set(A), set(Z), dict(K), dict(K)
            for i in fn.blocks[b]:
                if i.op != 'phi':
                    break
                o = next((q for pp, q in i.ops if pp == p), None)
                if o is None:
                    continue
                if i.ty == 'ptr':
                    r = self.aliasof(o, h, A)
                    A2.discard(i.id)
                    Z2.discard(i.id)
                    if r:
                        A2.add(i.id)
                    elif o[0] in ('null', 'undef') or (o[0] == 'v' and o[1] in Z):
                        Z2.add(i.id)
                elif i.id in self.retphis:
                    K2.pop(i.id, None)
                    if o[0] == 'c':
                        K2[i.id] = o[1]
                    elif o[0] == 'v' and o[1] in K0:
                        K2[i.id] = K0[o[1]]
                    elif i.id in self.idxphis:
                        x = self.value(o, h, A, Z, K0, status)
                        if isinstance(x, int) and abs(x) <= 64:
                            K2[i.id] = x
            push(b, 0, (status, frozenset(A2), frozenset(Z2), frozenset(K2.items())))

        for p, b, st in start:
            edge(p, b, st)
        if site.i.op == 'call' and site.kind in ('ptr', 'throw'):
            push(site.i.bb, site.i.pos + 1, (LIVE, E, E, E))
            if site.kind == 'ptr':
                push(site.i.bb, site.i.pos + 1, (NULLED, E, E, E))
        n = 0
        while work:
            b, pos, st = work.pop()
            n += 1
            if n > 60000:
                out[('limit', h)] = ('analysis-limit', 'too many path states', site.i)
                break
            status, A, Z, K = st
            A, Z = set(A), set(Z)
            Kd = dict(K)
            dead = False
            for i in fn.blocks[b][pos:]:
                if i.op == 'phi':
                    continue
                if i is site.i or i.op in ('br', 'switch', 'ret', 'resume', 'unreachable', 'invoke') and not (i.op == 'invoke'):
                    if i is site.i:
                        dead = True   # re-executed: treated as a fresh acquisition
                        if status == LIVE and not A:
                            out[('reacq', i.id)] = ('leak', 'object of %s lost when it is acquired again' % short(site.i), i)
                    break
                # uses through the pointer
                if i.op == 'load':
                    if self.aliasof(i.ops[0], h, A):
                        self._use(i, status, site, out)
                    if i.ty == 'ptr':
                        c = self.cellof(i.ops[0], lambda q: self.value(q, h, A, Z, Kd, status))
                        A.discard(i.id)
                        Z.discard(i.id)
                        if c is not None and ('cell',) + c in A:
                            A.add(i.id)
                elif i.op == 'store':
                    if self.aliasof(i.ops[1], h, A):
                        self._use(i, status, site, out)
                    if i.vty == 'ptr':
                        c = self.cellof(i.ops[1], lambda q: self.value(q, h, A, Z, Kd, status))
                        al = self.aliasof(i.ops[0], h, A)
                        dst = self.P.bases(i.ops[1])
                        if ('pstream',) in dst:
                            if al:
                                A.add('handed')
                            else:
                                A.discard('handed')
                        elif c is not None:
                            A.discard(('cell',) + c)
                            if al:
                                A.add(('cell',) + c)
                        elif al and status == LIVE:
                            status = GONE
                elif i.op in ('call', 'invoke'):
                    c = i.callee or ''
                    if c in ssa.DELS or c.startswith(('_Zdl', '_Zda')):
                        fam = ssa.DELS.get(c) or ('new' if c.startswith('_Zdl') else 'new[]')
                        a = i.ops[0]
                        if self.aliasof(a, h, A):
                            if status == FREED:
                                out[('double', i.id)] = ('double-release', 'object of %s released twice' % short(site.i), i)
                            elif status == LIVE:
                                if fam != site.family:
                                    out[('family', i.id)] = ('mismatched-release', 'object of %s released with %s' % (short(site.i), c if fam == 'malloc' else i.cdem), i)
                                status = FREED
                        else:
                            r = self.root0(a)
                            r = self.canon.get(r, r)
                            A = {x for x in A if not (isinstance(x, tuple) and x[0] == 'cell' and x[1] == r)}
                    elif c == 'realloc' and self.aliasof(i.ops[0], h, A):
                        status = GONE
                    elif c.startswith('llvm.mem') or c in ('memset', 'memcpy', 'memmove'):
                        for o in i.ops[:2]:
                            if o[0] in ('v', 'gep') and self.aliasof(o, h, A):
                                self._use(i, status, site, out)
                    elif not c.startswith('llvm.'):
                        for o in i.ops:
                            if o[0] in ('v', 'gep') and self.aliasof(o, h, A):
                                self._use(i, status, site, out)
                # constants carried by selects
                if i.op == 'select' and i.id in self.retphis:
                    pass
            if dead:
                continue
            t = fn.term(b)
            st2 = (status, frozenset(A), frozenset(Z), frozenset(Kd.items()))
            if t.op == 'ret':
                rv = 'void'
                if t.ops:
                    rv = self.value(t.ops[0], h, A, Z, Kd, status)
                if status in (NULLED, FAILED) and self.kind is not None and self.kind != 'free':
                    if rv is None:
                        self.undecided += 1
                    elif rv != 2:
                        out[('fail', t.id, str(rv))] = ('failure-not-reported', 'when %s fails the function can return %s instead of TI_OUT_OF_MEMORY' % (short(site.i), 'an unknown value' if rv is None else rv), t)
                if status == LIVE:
                    owned = 'handed' in A or any(isinstance(x, tuple) and x[0] == 'cell' and x[1] == 'stream' for x in A)
                    if t.ops and fn.ret == 'ptr' and self.aliasof(t.ops[0], h, A):
                        owned = True
                    elif owned and self.kind == 'new' and rv not in (0, None):
                        owned = False
                    if not owned:
                        out[('leak', h, str(rv))] = ('leak', 'object of %s is not released when the function returns%s' % (short(site.i), '' if rv in (None, 'void') else ' %s' % rv), t)
                continue
            if t.op == 'resume':
                if status == FAILED:
                    out[('escape', h)] = ('exception-escapes', 'std::bad_alloc thrown by %s leaves the function' % short(site.i), site.i)
                elif status == LIVE:
                    owned = False
                    out[('leakx', h)] = ('leak-on-exception', 'object of %s is not released when an exception leaves the function' % short(site.i), site.i)
                continue
            if t.op == 'unreachable':
                continue
            if t.op == 'br' and len(fn.succs[b]) == 2:
                v = self.value(t.ops[0], h, A, Z, Kd, status)
                if v is not None and v != 'void':
                    edge(b, fn.succs[b][0] if v else fn.succs[b][1], st2)
                    continue
            if t.op == 'switch':
                v = self.value(t.ops[0], h, A, Z, Kd, status)
                if v is not None:
                    s = next((x[1] for x in t.cases if x[0] == v), t.d['default'])
                    edge(b, s, st2)
                    continue
            if t.op == 'invoke':
                edge(b, t.normal, st2)
                if self.throwing(t):
                    edge(b, t.unwind, (status, frozenset(A), frozenset(Z), frozenset(Kd.items())))
                continue
            for s in fn.succs[b]:
                edge(b, s, st2)
        return list(out.values())

    def throwing(self, i):
        return i.callee is None or self.may.throws(i.callee)

    def _use(self, i, status, site, out):
        if status == NULLED:
            out[('nullderef', site.i.id)] = ('null-dereference', 'result of %s is used without a check' % short(site.i), i)
        elif status == FREED:
            out[('uaf', i.id)] = ('use-after-release', 'object of %s is used after its release' % short(site.i), i)

    def aliasof(self, o, h, A):
        r = self.root0(o)
        if r is None:
            return False
        if r == h or r in A:
            return True
        i = self.fn.defs.get(r)
        if i is not None and i.op == 'select' and i.ty == 'ptr':
            return self.aliasof(i.ops[1], h, A) or self.aliasof(i.ops[2], h, A)
        return False

    def value(self, o, h, A, Z, K, status, depth=0):
        """constant value of an integer operand on this path, else None"""
        if o[0] == 'c':
            return o[1]
        if o[0] != 'v' or depth > 300:
            return None
        if o[1] in K:
            return K[o[1]]
        i = self.fn.defs.get(o[1])
        if i is None:
            return None
        if i.op == 'icmp':
            a, b = i.ops
            if a[0] == 'null':
                a, b = b, a
            if b[0] == 'null' and i.pred in ('eq', 'ne') and status != FAILED:
                nul = None
                if self.aliasof(a, h, A):
                    nul = status == NULLED
                    if status == GONE:
                        nul = False
                elif a[0] == 'v' and a[1] in Z:
                    nul = True
                elif a[0] == 'null':
                    nul = True
                if nul is None:
                    return None
                return int(nul == (i.pred == 'eq'))
            x, y = self.value(a, h, A, Z, K, status, depth + 1), self.value(b, h, A, Z, K, status, depth + 1)
            if x is None or y is None or isinstance(x, str) or isinstance(y, str):
                # exception selector compare
                t = self._typeid(a) or self._typeid(b)
                if t:
                    hit = t in BADALLOC_CATCH
                    return int(hit == (i.pred == 'eq'))
                return None
            import sccp
            f = sccp.IC.get(i.pred)
            return int(f(x, y)) if f else None
        if i.op == 'select':
            c = self.value(i.ops[0], h, A, Z, K, status, depth + 1)
            if c is not None:
                return self.value(i.ops[1] if c else i.ops[2], h, A, Z, K, status, depth + 1)
            if i.ty == 'i1':
                # logical and / or
                x = self.value(i.ops[1], h, A, Z, K, status, depth + 1)
                y = self.value(i.ops[2], h, A, Z, K, status, depth + 1)
                if x is not None and x == y:
                    return x
            return None
        if i.op in ('and', 'or') and i.ty == 'i1':
            x = self.value(i.ops[0], h, A, Z, K, status, depth + 1)
            y = self.value(i.ops[1], h, A, Z, K, status, depth + 1)
            z = 0 if i.op == 'and' else 1
            if x == z or y == z:
                return z
            if x is not None and y is not None:
                return x & y if i.op == 'and' else x | y
            return None
        if i.op == 'xor' and i.ty == 'i1':
            x = self.value(i.ops[0], h, A, Z, K, status, depth + 1)
            y = self.value(i.ops[1], h, A, Z, K, status, depth + 1)
            return None if x is None or y is None else x ^ y
        if i.op in ('add', 'sub', 'mul', 'shl') and i.ty != 'i1':
            x = self.value(i.ops[0], h, A, Z, K, status, depth + 1)
            y = self.value(i.ops[1], h, A, Z, K, status, depth + 1)
            if isinstance(x, int) and isinstance(y, int) and abs(x) <= 4096 and abs(y) <= 64:
                return {'add': x + y, 'sub': x - y, 'mul': x * y, 'shl': x << max(y, 0)}[i.op]
            return None
        if i.op in ('zext', 'sext', 'trunc'):
            return self.value(i.ops[0], h, A, Z, K, status, depth + 1)
        return None

    def _typeid(self, o):
        if o[0] == 'v':
            i = self.fn.defs.get(o[1])
            if i is not None and i.op == 'call' and (i.callee or '').startswith('llvm.eh.typeid'):
                return i.ops[0][1] if i.ops[0][0] == 'g' else '?'
        return None


def short(i):
    return (i.cdem or i.callee or '?').split('(')[0].replace('std::', '').replace('<double, allocator<double>>', '').replace('<double, less<double>, allocator<double>>', '')[:60]
