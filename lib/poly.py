"""Integer linear expressions and convex polyhedra over named integer variables (libisl through tool/poly.cpp)."""
import ctypes, os, subprocess
from math import gcd
import vbuild

_lib = None


def lib():
    global _lib
    if _lib is None:
        p = os.path.join(vbuild.VERIF, 'build', 'libpoly.so')
        src = os.path.join(vbuild.VERIF, 'tool', 'poly.cpp')
        if not os.path.exists(p) or os.path.getmtime(p) < os.path.getmtime(src):
            os.makedirs(os.path.dirname(p), exist_ok=True)
            isl = next((os.path.join(d, f) for d in ('/usr/lib/x86_64-linux-gnu', '/usr/lib/aarch64-linux-gnu', '/usr/lib64', '/usr/lib')
                        if os.path.isdir(d) for f in sorted(os.listdir(d)) if f.startswith('libisl.so')), None)
            if not isl:
                raise vbuild.Broken('libisl not found')
            tmp = p + '.%d' % os.getpid()
            r = subprocess.run(['g++', '-O2', '-shared', '-fPIC', '-o', tmp, src, isl], capture_output=True, text=True)
            if r.returncode:
                raise vbuild.Broken('cannot build libpoly: ' + r.stderr[-1500:])
            os.replace(tmp, p)
        _lib = ctypes.CDLL(p)
    return _lib


class Lin:
    """c + sum coef*var"""
    __slots__ = ('t', 'c', '_h')

    def __init__(self, c=0, t=None):
        self.c = c
        self.t = t or {}
        self._h = None

    @staticmethod
    def var(v):
        return Lin(0, {v: 1})

    def __add__(self, o):
        if isinstance(o, int):
            return Lin(self.c + o, self.t)
        t = dict(self.t)
        for v, k in o.t.items():
            k2 = t.get(v, 0) + k
            if k2:
                t[v] = k2
            else:
                t.pop(v, None)
        return Lin(self.c + o.c, t)

    def __neg__(self):
        return Lin(-self.c, {v: -k for v, k in self.t.items()})

    def __sub__(self, o):
        if isinstance(o, int):
            return Lin(self.c - o, self.t)
        return self + (-o)

    def __mul__(self, k):
        if k == 0:
            return Lin(0)
        return Lin(self.c * k, {v: a * k for v, a in self.t.items()})

    def div(self, k):
        """exact division or None"""
        if self.c % k or any(a % k for a in self.t.values()):
            return None
        return Lin(self.c // k, {v: a // k for v, a in self.t.items()})

    def const(self):
        return self.c if not self.t else None

    def key(self):
        return (self.c, tuple(sorted(self.t.items())))

    def rename(self, m):
        t = {}
        for v, k in self.t.items():
            w = m.get(v, v)
            t[w] = t.get(w, 0) + k
        return Lin(self.c, {v: k for v, k in t.items() if k})

    def subst(self, v, e):
        k = self.t.get(v)
        if not k:
            return self
        t = dict(self.t)
        del t[v]
        return Lin(self.c, t) + e * k

    def __eq__(self, o):
        return isinstance(o, Lin) and self.c == o.c and self.t == o.t

    def __hash__(self):
        return hash(self.key())

    def __repr__(self):
        s = ''.join('%+d*%s' % (k, v) if abs(k) != 1 else ('+' if k > 0 else '-') + v for v, k in sorted(self.t.items()))
        if self.c or not s:
            s += '%+d' % self.c
        return s.lstrip('+')


def norm(t, c, eq):
    """normalised constraint (eq, c, items) ; True if trivially true, False if trivially false"""
    if not t:
        return (c == 0) if eq else (c >= 0)
    g = 0
    for k in t.values():
        g = gcd(g, k)
    if g > 1:
        if eq:
            if c % g:
                return False
            c //= g
        else:
            c = c // g
        t = {v: k // g for v, k in t.items()}
    it = tuple(sorted(t.items()))
    if eq and it[0][1] < 0:
        it = tuple((v, -k) for v, k in it)
        c = -c
    return (eq, c, it)


_empty_memo = {}
HULLCAP = 400
STAT = {'empty': 0, 'hull': 0, 'hull_fb': 0, 'elim': 0, 'cover': 0}


class Poly:
    __slots__ = ('cons', '_e')
    BOT = None

    def __init__(self, cons, bottom=False):
        """cons: iterable of normalised constraints"""
        if bottom:
            self.cons = None
            self._e = True
            return
        best = {}
        for e, c, it in cons:
            if e:
                k = (True, it)
                if k in best and best[k] != c:
                    self.cons = None
                    self._e = True
                    return
                best[k] = c
            else:
                k = (False, it)
                if k not in best or c < best[k]:
                    best[k] = c
        self.cons = frozenset((k[0], c, k[1]) for k, c in best.items())
        self._e = None

    @staticmethod
    def universe():
        return Poly(())

    def vars(self):
        r = set()
        for _, _, it in self.cons or ():
            for v, _ in it:
                r.add(v)
        return r

    def add(self, *cs):
        """cs: (Lin, eq) pairs; Lin >= 0 or == 0"""
        if self.cons is None:
            return self
        new = list(self.cons)
        for l, eq in cs:
            n = norm(l.t, l.c, eq)
            if n is True:
                continue
            if n is False:
                return Poly((), True)
            new.append(n)
        return Poly(new)

    def pin(self):
        """same set, with constants put in wherever a variable can have one value only (by direct substitution)"""
        p = self
        for _ in range(8):
            if p.cons is None:
                return p
            val = {it[0][0]: -c for e, c, it in p.cons if e and len(it) == 1 and it[0][1] == 1}
            iq = {it: c for e, c, it in p.cons if not e}
            new = []
            for e, c, it in p.cons:
                t = {v: k for v, k in it if v not in val}
                if len(t) < len(it) and len(it) > 1:
                    n = norm(t, c + sum(k * val[v] for v, k in it if v in val), e)
                    if n is False:
                        return Poly((), True)
                    if n is not True:
                        new.append(n)
                    continue
                if not e and len(it) == 1 and it[0][0] in val:
                    if c + it[0][1] * val[it[0][0]] < 0:
                        return Poly((), True)
                    continue
                if not e and iq.get(tuple((v, -k) for v, k in it)) == -c:
                    n = norm(t, c, True)
                    if n is False:
                        return Poly((), True)
                    new.append(n)
                    continue
                new.append((e, c, it))
            q = Poly(new)
            if q.cons == p.cons:
                return p
            p = q
        return p

    def empty(self):
        if self._e is None:
            k = self.cons
            r = _empty_memo.get(k)
            if r is None:
                r = self._quick()
                if r is None:
                    STAT['empty'] += 1
                    vs, rows, eq = _pack([self])
                    r = lib().p_empty(len(vs), len(self.cons), rows, eq) == 1
                _empty_memo[k] = r
            self._e = r
        return self._e

    def _quick(self):
        lo, hi = {}, {}
        multi = False
        for e, c, it in self.cons:
            if len(it) == 1:
                v, k = it[0]
                if e:
                    if c % k:
                        return True
                    x = -c // k
                    lo[v] = max(lo.get(v, x), x)
                    hi[v] = min(hi.get(v, x), x)
                elif k > 0:
                    x = -(c // k)
                    lo[v] = max(lo.get(v, x), x)
                else:
                    x = c // -k
                    hi[v] = min(hi.get(v, x), x)
            else:
                multi = True
        for v in lo:
            if v in hi and lo[v] > hi[v]:
                return True
        return None if multi else False

    def ge(self, l):
        """entails l >= 0"""
        if self.empty():
            return True
        if not l.t:
            return l.c >= 0
        n = norm(l.t, l.c, False)
        for e, c, it in self.cons:
            if it == n[2] and (c <= n[1]):
                return True
        return self.add((-l - 1, False)).empty()

    def eq(self, l):
        if self.empty():
            return True
        if not l.t:
            return l.c == 0
        return self.ge(l) and self.ge(-l)

    def sat(self, *cs):
        p = self.add(*cs)
        return not p.empty()

    def meet(self, o):
        if self.cons is None or o.cons is None:
            return Poly((), True)
        return Poly(list(self.cons) + list(o.cons))

    def rename(self, m):
        if self.cons is None:
            return self
        out = []
        for e, c, it in self.cons:
            if any(v in m for v, _ in it):
                t = {}
                for v, k in it:
                    w = m.get(v, v)
                    t[w] = t.get(w, 0) + k
                n = norm({v: k for v, k in t.items() if k}, c, e)
                if n is False:
                    return Poly((), True)
                if n is not True:
                    out.append(n)
            else:
                out.append((e, c, it))
        return Poly(out)

    def eliminate(self, vs):
        if self.cons is None:
            return self
        vs = set(vs)
        cons = list(self.cons)
        todo = {v for _, _, it in cons for v, _ in it if v in vs}
        if not todo:
            return self
        ch = True
        while ch and todo:
            ch = False
            for idx, (e, c, it) in enumerate(cons):
                if not e:
                    continue
                pick = None
                for v, k in it:
                    if v in todo and abs(k) == 1:
                        pick = (v, k)
                        break
                if not pick:
                    continue
                v, k = pick
                rest = Lin(c, {w: a for w, a in it if w != v}) * (-k)   # v = rest
                new = []
                bad = False
                for j, (e2, c2, it2) in enumerate(cons):
                    if j == idx:
                        continue
                    a = next((a for w, a in it2 if w == v), 0)
                    if a:
                        l = Lin(c2, {w: b for w, b in it2 if w != v}) + rest * a
                        n = norm(l.t, l.c, e2)
                        if n is False:
                            return Poly((), True)
                        if n is not True:
                            new.append(n)
                    else:
                        new.append((e2, c2, it2))
                cons = new
                todo.discard(v)
                ch = True
                break
        todo = {v for _, _, it in cons for v, _ in it if v in todo}
        # a variable bounded on one side only disappears with its constraints
        ch = True
        while ch and todo:
            ch = False
            for v in list(todo):
                sg = set()
                for e, c, it in cons:
                    for w, k in it:
                        if w == v:
                            sg.add(0 if e else (1 if k > 0 else -1))
                if len(sg) <= 1 and 0 not in sg:
                    cons = [x for x in cons if all(w != v for w, _ in x[2])]
                    todo.discard(v)
                    ch = True
        p = Poly(cons)
        if todo and p.cons is not None:
            # only the connected component needs the library
            comp, rest = p.component(todo)
            STAT['elim'] += 1
            order = sorted({v for _, _, it in comp for v, _ in it} - todo) + sorted(todo)
            vs2, rows, eq = _pack([Poly(comp)], order)
            r = _call_out(lib().p_eliminate, order, (len(order), len(Poly(comp).cons), rows, eq, len(todo)))
            if r == -2:
                return Poly((), True)
            if isinstance(r, int):
                r = [x for x in comp if all(v not in todo for v, _ in x[2])]
            p = Poly(list(rest) + [x for x in r if all(v not in todo for v, _ in x[2])])
        return p

    def component(self, seeds):
        """constraints connected to the seed variables, and the others"""
        vs = set(seeds)
        comp, rest = [], list(self.cons)
        ch = True
        while ch:
            ch = False
            keep = []
            for x in rest:
                if any(v in vs for v, _ in x[2]):
                    comp.append(x)
                    vs.update(v for v, _ in x[2])
                    ch = True
                else:
                    keep.append(x)
            rest = keep
        return comp, rest

    def simplify(self):
        if not self.cons:
            return self
        STAT['elim'] += 1
        order = sorted(self.vars())
        vs, rows, eq = _pack([self], order)
        r = _call_out(lib().p_eliminate, order, (len(order), len(self.cons), rows, eq, 0))
        if r == -2:
            return Poly((), True)
        if isinstance(r, int):
            return self
        return Poly(r)

    def covered(self, polys):
        """every integer point lies in one of polys (False when not known)"""
        polys = [p for p in polys if p.cons is not None]
        if self.empty():
            return True
        if not polys:
            return False
        for p in polys:
            if p.cons <= self.cons:
                return True
        STAT['cover'] += 1
        order = sorted(set().union(self.vars(), *[p.vars() for p in polys]))
        if not order:
            return True
        _, r1, e1 = _pack([self], order)
        _, r2, e2 = _pack(polys, order)
        ms = (ctypes.c_int32 * len(polys))(*[len(p.cons) for p in polys])
        return lib().p_covered(len(order), len(self.cons), r1, e1, len(polys), ms, r2, e2) == 1

    def __repr__(self):
        if self.cons is None:
            return 'BOT'
        return '{' + ', '.join('%r %s 0' % (Lin(c, dict(it)), '==' if e else '>=') for e, c, it in sorted(self.cons, key=lambda x: (not x[0], x[2], x[1]))) + '}'


def _pack(polys, order=None):
    if order is None:
        order = sorted(set().union(*[p.vars() for p in polys]))
    ix = {v: k + 1 for k, v in enumerate(order)}
    n = len(order) + 1
    m = sum(len(p.cons) for p in polys)
    rows = (ctypes.c_int64 * (m * n))()
    eq = (ctypes.c_int32 * max(1, m))()
    j = 0
    for p in polys:
        for e, c, it in p.cons:
            b = j * n
            rows[b] = c
            for v, k in it:
                rows[b + ix[v]] = k
            eq[j] = 1 if e else 0
            j += 1
    return order, rows, eq


MAXROWS = 400


def _call_out(f, order, args):
    n = len(order) + 1
    orows = (ctypes.c_int64 * (MAXROWS * n))()
    oeq = (ctypes.c_int32 * MAXROWS)()
    k = f(*args, MAXROWS, orows, oeq)
    if k < 0:
        return k
    res = []
    for j in range(k):
        b = j * n
        t = {}
        for q in range(1, n):
            if orows[b + q]:
                t[order[q - 1]] = orows[b + q]
        x = norm(t, orows[b], bool(oeq[j]))
        if x is False:
            return -2
        if x is not True:
            res.append(x)
    return res


def hull(polys, cheap=False):
    polys = [p for p in polys if not p.empty()]
    if not polys:
        return Poly((), True)
    if len(polys) == 1:
        return polys[0]
    first = polys[0]
    if all(p.cons == first.cons for p in polys):
        return first
    # constraints present in all operands that live in components untouched by the rest stay aside
    common = frozenset.intersection(*[p.cons for p in polys])
    diffvars = set()
    for p in polys:
        for e, c, it in p.cons - common:
            diffvars.update(v for v, _ in it)
    aside, inner = [], []
    rest = Poly(common)
    comp, aside = rest.component(diffvars)
    # a variable that occurs in the shared constraints only, always in one and the same linear form, is the
    # coordinate of a product: hull(A x I, B x I) = hull(A, B) x I
    ch = True
    while ch:
        ch = False
        occ = {}
        for x in comp:
            for v, _ in x[2]:
                occ.setdefault(v, []).append(x)
        for v, xs in occ.items():
            if v in diffvars:
                continue
            forms = set()
            for e, c, it in xs:
                forms.add(max(it, tuple((w, -k) for w, k in it)))
            if len(forms) == 1:
                aside += xs
                comp = [x for x in comp if x not in xs]
                ch = True
                break
    ps = [Poly(list(comp) + list(p.cons - common)) for p in polys]
    STAT['hull'] += 1
    order = sorted(set().union(*[p.vars() for p in ps]))
    _, rows, eq = _pack(ps, order)
    ms = (ctypes.c_int32 * len(ps))(*[len(p.cons) for p in ps])
    r = -1
    if not cheap:
        r = _call_out(lib().p_hull2, order, (len(order), len(ps), ms, rows, eq, HULLCAP))
    if isinstance(r, int):
        STAT['hull_fb'] += 1
        r = _call_out(lib().p_hull, order, (len(order), len(ps), ms, rows, eq, 1))
    if isinstance(r, int):
        r = list(frozenset.intersection(*[p.cons for p in ps]))
    return Poly(list(r) + list(aside))


def widen(old, new, marks=()):
    """standard widening of old by new (new must contain old): constraints of old that new entails, plus
    those of new that are mutually redundant with a constraint of old"""
    if old.empty():
        return new
    keep = []
    for e, c, it in old.cons:
        l = Lin(c, dict(it))
        if e:
            if new.ge(l) and new.ge(-l):
                keep.append((e, c, it))
            elif new.ge(l):
                keep.append((False, c, it))
            elif new.ge(-l):
                n = norm((-l).t, (-l).c, False)
                if n not in (True, False):
                    keep.append(n)
        elif new.ge(l):
            keep.append((e, c, it))
    for e, c, it in new.cons:
        if e:
            keep.append((e, c, it))
            continue
        l = Lin(c, dict(it))
        # new constraint equivalent to an equality-face of old: both old |= l and saturating it
        if (False, c, it) in old.cons:
            keep.append((e, c, it))
    for l in marks:
        if new.ge(l):
            n = norm(l.t, l.c, False)
            if n not in (True, False):
                keep.append(n)
    return Poly(keep)
