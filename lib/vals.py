"""Normal forms of computed values: sums of products over bars and opaque operations (value numbering with ring laws).

A form is valid for generic bars: comparisons never tie and no bar is NaN.  None stands for "not known"."""
import math

CAP = 400
ATOMS = []          # id -> (kind, key, payload, mask of bars)
IDS = {}
NAMES = {}


def atom(kind, key, payload, mask):
    k = (kind, key)
    i = IDS.get(k)
    if i is None:
        i = IDS[k] = len(ATOMS)
        ATOMS.append((kind, key, payload, mask))
    return i


def rnd(c):
    return '%.8g' % c


class V:
    __slots__ = ('m', '_k', '_b')

    def __init__(self, m):
        self.m = m
        self._k = self._b = None

    def key(self):
        if self._k is None:
            self._k = tuple(sorted((mo, rnd(c)) for mo, c in self.m.items()))
        return self._k

    def __eq__(self, o):
        return isinstance(o, V) and (self is o or self.key() == o.key())

    def __hash__(self):
        return hash(self.key())

    def mask(self):
        if self._b is None:
            b = 0
            for mo in self.m:
                for a, _ in mo:
                    b |= ATOMS[a][3]
            self._b = b
        return self._b

    def const(self):
        if not self.m:
            return 0.0
        if len(self.m) == 1 and () in self.m:
            return self.m[()]
        return None

    def lead(self):
        return self.m[min(self.m)]

    def __repr__(self):         # short: also sorts and tells apart
        i = NAMES.get(self.key())
        if i is None:
            i = NAMES[self.key()] = len(NAMES)
        return 'V%d' % i

    def text(self):
        def at(a, e):
            k, key, p, _ = ATOMS[a]
            s = 'b%d' % key if k == 'bar' else '%s(%s)' % (k, ', '.join(x.text() if isinstance(x, V) else repr(x) for x in p) if isinstance(p, tuple) else p.text() if isinstance(p, V) else repr(p))
            return s if e == 1 else '%s^%d' % (s, e)
        return ' + '.join('*'.join(([rnd(c)] if c != 1 or not mo else []) + [at(a, e) for a, e in mo]) for mo, c in sorted(self.m.items())) or '0'


def const(c):
    c = float(c)
    if c != c:
        return None
    if abs(c) > 1e300:          # more than any bar
        return V({((atom('huge', 0, None, 0), 1),): 1.0 if c > 0 else -1.0})
    return V({(): c}) if c else V({})


def bar(b):
    return V({((atom('bar', b, None, 1 << b), 1),): 1.0})


def single(i, e=1):
    return V({((i, e),): 1.0})


def add(a, b, k=1.0):
    if a is None or b is None:
        return None
    m = dict(a.m)
    for mo, c in b.m.items():
        x, y = m.get(mo, 0.0), c * k
        s = x + y
        if abs(s) <= 1e-12 * max(abs(x), abs(y)):
            m.pop(mo, None)
        else:
            m[mo] = s
    return V(m) if len(m) <= CAP else None


def scale(a, k):
    if a is None or k is None:
        return None
    return V({mo: c * k for mo, c in a.m.items()}) if k else V({})


def mmul(x, y):
    """product of two monomials: (monomial, [forms to multiply in])"""
    d, extra = dict(x), []
    for a, e in y:
        d[a] = d.get(a, 0) + e
    for a in list(d):
        kind = ATOMS[a][0]
        if not d[a]:
            del d[a]
        elif kind == 'step' and d[a] > 1:
            d[a] = 1
        elif kind == 'abs' and d[a] > 1:
            n = d[a] // 2
            extra += [(ATOMS[a][2], 2 * n)]
            d[a] -= 2 * n
            if not d[a]:
                del d[a]
        elif kind == 'sqrt' and abs(d[a]) > 1:
            n = int(d[a] / 2)
            extra.append((ATOMS[a][2], n))
            d[a] -= 2 * n
            if not d[a]:
                del d[a]
    return tuple(sorted(d.items())), extra


def canon(a):
    """(c, a / c) with leading coefficient one"""
    c = a.lead()
    return c, scale(a, 1 / c)


def mul(a, b):
    if a is None or b is None:
        return None
    for x, y in ((a, b), (b, a)):
        c = x.const()
        if c is not None:
            return scale(y, c)
    for x, y in ((a, b), (b, a)):       # a sum against its own reciprocal
        if len(y.m) > 1:
            c, p = canon(y)
            i = IDS.get(('inv', p.key()))
            if i is not None and all(dict(mo).get(i, 0) > 0 for mo in x.m):
                return scale(V({mmul(mo, ((i, -1),))[0]: k for mo, k in x.m.items()}), c)
    if len(a.m) * len(b.m) > 4 * CAP:
        return None
    r = V({})
    m = {}
    for x, c in a.m.items():
        for y, k in b.m.items():
            mo, extra = mmul(x, y)
            if extra:
                t = V({mo: c * k})
                for f, n in extra:
                    for _ in range(abs(n)):
                        t = mul(t, f) if n > 0 else div(t, f)
                r = add(r, t)
                if r is None:
                    return None
            else:
                p, q = m.get(mo, 0.0), c * k
                s = p + q
                if abs(s) <= 1e-12 * max(abs(p), abs(q)):
                    m.pop(mo, None)
                else:
                    m[mo] = s
    if len(m) > CAP:
        return None
    return add(V(m), r)


def div(a, b):
    if a is None or b is None:
        return None
    c = b.const()
    if c is not None:
        return scale(a, 1 / c) if c else None
    if len(b.m) == 1:
        (mo, c), = b.m.items()
        if any(ATOMS[x][0] == 'step' for x, _ in mo):
            return mul(a, single(opaque('recip', b)))
        return mul(a, V({tuple((x, -e) for x, e in mo): 1 / c}))
    c, p = canon(b)
    if a.m and len(a.m) == len(b.m):
        k, q = canon(a)
        if q == p:
            return const(k / c)
    # 'inv' atoms stand for one over their form
    return scale(mul(a, single(atom('inv', p.key(), p, p.mask()))), 1 / c)


def opaque(name, *args):
    m = 0
    for x in args:
        m |= x.mask()
    return atom(name, tuple(x.key() for x in args), args, m)


ORDER = None        # rank of a bar, when an order of the bars is assumed (all positive then)


def sign(d):
    """sign of a form under the assumed order of the bars, or None"""
    if ORDER is None or d is None or not d.m:
        return None
    lin, rest = [], 0
    if huge(d):
        return huge(d)
    for mo, c in d.m.items():
        if len(mo) == 1 and mo[0][1] == 1 and ATOMS[mo[0][0]][0] == 'bar':
            lin.append((ORDER(ATOMS[mo[0][0]][1]), c))
        else:
            s = 1
            for q, e in mo:
                s *= atomsign(q) ** (e & 1)
            if not s:
                return None
            s = s if c > 0 else -s
            if rest and rest != s:
                return None
            rest = s
    pos = neg = True
    t, eps = 0.0, 1e-9 * sum(abs(c) for _, c in lin)
    for _, c in sorted(lin, reverse=True):      # sum by parts: every partial sum from the top counts with a positive step
        t += c
        pos, neg = pos and t >= -eps, neg and t <= eps
    if lin and pos and neg:
        return None
    r = 0 if not lin else 1 if pos else -1 if neg else None
    if r is None or r and rest and r != rest:
        return None
    return r or rest


def atomsign(q):
    kind, key, p, _ = ATOMS[q]
    if kind in ('bar', 'abs', 'sqrt', 'max', 'exp') or kind == 'step':
        return 0 if kind == 'step' else 1
    if kind in ('inv', 'recip'):
        return sign(p[0] if isinstance(p, tuple) else p) or 0
    return 0


def step(d):
    """one where d is positive, zero where it is negative"""
    if d is None:
        return None
    c = d.const()
    if c is not None:
        return const(1 if c > 0 else 0)
    g = huge(d) or sign(d)
    if g:
        return const(g > 0)
    t = table(d)
    if t is not None:
        return t
    c, p = canon(d)
    s = single(atom('step', p.key(), p, p.mask()))
    return s if c > 0 else add(const(1), s, -1.0)


def table(d):
    """step of a form made of comparisons only, written out"""
    at = sorted({q for mo in d.m for q, _ in mo})
    if len(at) > 6 or any(ATOMS[q][0] != 'step' for q in at):
        return None
    r = V({})
    for bits in range(1 << len(at)):
        on = {q for j, q in enumerate(at) if bits >> j & 1}
        if sum(c for mo, c in d.m.items() if all(q in on for q, _ in mo)) <= 0:
            continue
        t = const(1)
        for q in at:
            t = mul(t, single(q) if q in on else V({(): 1.0, ((q, 1),): -1.0}))
        r = add(r, t)
        if r is None:
            return None
    return r


def choose(c, a, b):
    """a where c is one, b where c is zero"""
    k = c.const() if c is not None else None
    if k is not None:
        return a if k else b
    if c is None or a is None or b is None:
        return None
    d = add(a, b, -1.0)
    if d is None:
        return None
    if not d.m:
        return a
    for f, x, y in ((c, a, b), (add(const(1), c, -1.0), b, a)):     # x where f, else y
        if len(f.m) == 1:
            (mo, q), = f.m.items()
            if q == 1 and len(mo) == 1 and ATOMS[mo[0][0]][0] == 'step':
                p = ATOMS[mo[0][0]][2]
                if len(p.m) == len(d.m):
                    q, e = canon(add(x, y, -1.0))
                    if e == p:          # the greater, or the lesser, of the two
                        return vmax(x, y) if q > 0 else vmin(x, y)
    return add(b, mul(c, add(a, b, -1.0)))


def absolute(d):
    if d is None:
        return None
    c = d.const()
    if c is not None:
        return const(abs(c))
    g = huge(d) or sign(d)
    if g:
        return scale(d, float(g))
    c, p = canon(d)
    return scale(single(atom('abs', p.key(), p, p.mask())), abs(c))


def flat(a):
    """arguments of the maximum a is, if it is one plus something"""
    hit = [mo for mo in a.m if len(mo) == 1 and mo[0][1] == 1 and ATOMS[mo[0][0]][0] in ('abs', 'max')]
    if len(hit) != 1 or a.m[hit[0]] <= 0:
        return [a]
    (mo,), k = hit, a.m[hit[0]]
    rest = V({x: c for x, c in a.m.items() if x != mo})
    kind, _, p, _ = ATOMS[mo[0][0]]
    ps = [p, scale(p, -1.0)] if kind == 'abs' else list(p)
    return [y for x in ps for y in flat(add(scale(x, k), rest))]


def huge(d):
    """sign of a form infinity decides"""
    h = 0
    for mo, c in d.m.items():
        if any(ATOMS[q][0] == 'huge' for q, _ in mo):
            if len(mo) > 1 or mo[0][1] != 1:
                return 0
            h = 1 if c > 0 else -1
    return h


def above(d):
    return (d.const() or 0) > 0 or huge(d) == 1 or sign(d) == 1


def vmax(a, b):
    if a is None or b is None:
        return None
    args = {}
    for x in flat(a) + flat(b):
        args[x.key()] = x
    while True:         # constants fold, differences by a constant too
        for x in args:
            y = next((y for y in args if y != x and above(add(args[x], args[y], -1.0))), None)
            if y:
                del args[y]
                break
        else:
            break
    xs = [args[k] for k in sorted(args)]
    if len(xs) == 1:
        return xs[0]
    if len(xs) == 2:
        return scale(add(add(xs[0], xs[1]), absolute(add(xs[0], xs[1], -1.0))), 0.5)
    if len(xs) > 40:
        return None
    m = V({})
    for x in xs:
        m = add(m, x, 1.0 / len(xs))
    if m is None:
        return None
    xs = sorted((add(x, m, -1.0) for x in xs), key=V.key)
    c = max(abs(k) for x in xs for k in x.m.values())
    xs = sorted((scale(x, 1 / c) for x in xs), key=V.key)
    mask = 0
    for x in xs:
        mask |= x.mask()
    return add(m, scale(single(atom('max', tuple(x.key() for x in xs), tuple(xs), mask)), c))


def vmin(a, b):
    return scale(vmax(scale(a, -1.0), scale(b, -1.0)), -1.0)


def sqrt(a):
    if a is None:
        return None
    c = a.const()
    if c is not None:
        return const(math.sqrt(c)) if c >= 0 else None
    c, p = canon(a)
    if c < 0:
        c, p = -c, scale(p, -1.0)
    return scale(single(atom('sqrt', p.key(), p, p.mask())), math.sqrt(c))


FN = {n: getattr(math, n) for n in ('sin', 'cos', 'tan', 'asin', 'acos', 'atan', 'sinh', 'cosh', 'tanh', 'exp', 'log', 'log10', 'floor', 'ceil', 'trunc', 'pow', 'atan2', 'fmod', 'log2', 'exp2' if hasattr(math, 'exp2') else 'exp')}


def call(n, args):
    if any(a is None for a in args):
        return None
    if n in ('fmuladd', 'fma'):
        return arith('fadd', [arith('fmul', args[:2]), args[2]])
    if n in ('fabs', 'abs'):
        return absolute(args[0])
    if n in ('maxnum', 'fmax', 'maximum'):
        return vmax(*args)
    if n in ('minnum', 'fmin', 'minimum'):
        return vmin(*args)
    if n == 'sqrt':
        return sqrt(args[0])
    if n in ('pow', 'powi') and args[1].const() is not None:
        e = args[1].const()
        if e == int(e) and 0 < e <= 4:
            r = args[0]
            for _ in range(int(e) - 1):
                r = arith('fmul', [r, args[0]])
            return r
        if e == 0.5:
            return sqrt(args[0])
    cs = [a.const() for a in args]
    if all(c is not None for c in cs):
        f = FN.get(n)
        try:
            r = f(*cs) if f else None
            return const(r) if isinstance(r, (int, float)) else None
        except (ValueError, OverflowError):
            return None
    return single(opaque(n, *args))


def named(op, r, a, b, k=1.0):
    """r, or a name for the result of op when its normal form is too large"""
    if r is not None or a is None or b is None:
        return r
    if op == 'div' and (not b.m or b.const() is not None):
        return None
    ks = (a.key(), b.key())
    if op == 'mul' and ks[1] < ks[0] or op == 'add' and k == 1.0 and ks[1] < ks[0]:
        a, b, ks = b, a, ks[::-1]
    return single(atom('big', (op, k) + ks, (a, b), a.mask() | b.mask()))


def arith(op, ts):
    if op == 'fneg':
        return scale(ts[0], -1.0)
    if op == 'fadd':
        return named('add', add(*ts), *ts)
    if op == 'fsub':
        return named('add', add(ts[0], ts[1], -1.0), *ts, -1.0)
    if op == 'fmul':
        return named('mul', mul(*ts), *ts)
    if op == 'fdiv':
        return named('div', div(*ts), *ts)
    return call(op, ts)


TAINT = {}


def tainted(q):
    """whether a name of a large form or an unknown number occurs in an atom: its bars may cancel"""
    r = TAINT.get(q)
    if r is None:
        TAINT[q] = False
        kind, _, p, _ = ATOMS[q]
        ps = p if isinstance(p, tuple) else (p,)
        r = kind in ('big', 'global') or any(tainted(x) for v in ps if isinstance(v, V) for mo in v.m for x, _ in mo)
        TAINT[q] = r
    return r


def clear(a, b):
    """both forms multiplied by what makes their quotients go away"""
    for _ in range(12):
        inv, neg = {}, {}
        for f in (a, b):
            for mo in f.m:
                for q, e in mo:
                    if ATOMS[q][0] == 'inv' and e > 0:
                        inv[q] = max(inv.get(q, 0), e)
                    elif e < 0:
                        neg[q] = min(neg.get(q, 0), e)
        if neg:
            fac = V({tuple(sorted((q, -e) for q, e in neg.items())): 1.0})
            a, b = mul(a, fac), mul(b, fac)
        elif inv:
            q = max(inv)            # the outermost: created last
            p, top = ATOMS[q][2], inv[q]
            new = []
            for f in (a, b):
                by = {}
                for mo, c in f.m.items():
                    e = dict(mo).get(q, 0)
                    by.setdefault(e, {})[tuple(x for x in mo if x[0] != q)] = c
                r = V({})
                for e, m in by.items():
                    t = V(m)
                    for _ in range(top - e):
                        t = mul(t, p)
                    r = add(r, t)
                new.append(r)
            a, b = new
        else:
            return a, b
        if a is None or b is None:
            return None, None
    return None, None


def feasible(g):
    """whether the comparisons in a product can certainly all hold at once, and nothing in it cancels"""
    if any(tainted(q) for q, _ in g):
        return False
    args = [ATOMS[q][2] for q, _ in g if ATOMS[q][0] == 'step']
    args = [x[0] if isinstance(x, tuple) else x for x in args]
    if args and ORDER is not None:
        return False
    while args:
        for x in args:
            rest = 0
            for y in args:
                if y is not x:
                    rest |= y.mask()
            for mo in x.m:
                for q, e in mo:
                    k, key, _, m = ATOMS[q]
                    if len(mo) == 1 and e == 1 and k == 'bar' and not m & rest and not any(ATOMS[p][3] & m for o in x.m if o != mo for p, _ in o):
                        break
                else:
                    continue
                break
            else:
                continue
            args.remove(x)
            break
        else:
            return False
    return True


SAME = 'same'


def essential(a):
    """bars that certainly make a difference to a"""
    inside, free, twice = 0, 0, 0
    groups = {}
    for mo in a.m:
        groups.setdefault(tuple((q, e) for q, e in mo if ATOMS[q][0] != 'bar' or e < 0), []).append(mo)
    for g, ms in groups.items():
        own = 0
        for q, _ in g:
            inside |= ATOMS[q][3]
        for mo in ms:
            for q, e in mo:
                if ATOMS[q][0] == 'bar' and e > 0:
                    own |= ATOMS[q][3]
        twice |= free & own
        if feasible(g):
            free |= own
        else:
            inside |= own
    inside |= twice
    return free & ~inside


def differ(a, b, tol=1e-7):
    """SAME, or a reason why a and b are certainly different functions of the bars, or None (not known)"""
    if a is None or b is None:
        return None
    if a == b:
        return SAME
    a, b = clear(a, b)
    if a is None or b is None:
        return None
    if a == b:
        return SAME
    top = max([abs(c) for c in a.m.values()] + [abs(c) for c in b.m.values()])
    d = {}
    for mo in set(a.m) | set(b.m):
        x, y = a.m.get(mo, 0.0), b.m.get(mo, 0.0)
        if abs(x - y) > tol * top:
            d[mo] = (x, y)
    if not d:
        return SAME
    groups = {}             # opaque part -> monomials
    for mo in d:
        groups.setdefault(tuple((q, e) for q, e in mo if ATOMS[q][0] != 'bar'), []).append(mo)
    if list(d) == [()]:
        return 'the constant term', d[()]
    holds = {}
    for g, ms in groups.items():
        m = 0
        for mo in ms:
            for q, _ in mo:
                m |= ATOMS[q][3]
        holds[g] = m
    for g, m in holds.items():
        rest = 0
        for h, x in holds.items():
            if h != g:
                rest |= x
        if g and all(ATOMS[q][0] == 'step' for q, _ in g) and groups[g] == [g]:
            continue            # a comparison alone may always come out the same
        if not feasible(g):
            continue
        own = m & ~rest
        if own:
            b0 = (own & -own).bit_length() - 1
            for mo in groups[g]:
                if any(ATOMS[q][3] >> b0 & 1 for q, _ in mo):
                    return b0, d[mo]
    return None


def ranked(ts):
    """indices of the forms in ascending order, when an order of the bars settles it"""
    if ORDER is None:
        return list(range(len(ts))) if len(ts) == 1 else None
    import functools

    def cmp(a, b):
        d = add(ts[a], ts[b], -1.0)
        s = None if d is None else 0 if not d.m else sign(d)
        if s is None:
            raise LookupError
        return s
    try:
        return sorted(range(len(ts)), key=functools.cmp_to_key(cmp))
    except LookupError:
        return None


def statistic(ts, j):
    """j-th smallest of the forms"""
    k = tuple(sorted(t.key() for t in ts))
    m = 0
    for t in ts:
        m |= t.mask()
    return single(atom('rank', (j, k), tuple(sorted(ts, key=V.key)), m))
