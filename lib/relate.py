"""Compares what the variants of an indicator compute, and one stream under different chunkings, by normal form."""
from fractions import Fraction
import contextlib, signal, time
import numdrv, numst, optdom, shadow, vals, num
from num import Num, State
from poly import Poly


def vectors(ind, many=False):
    """option vectors to look at, plainest first"""
    k = ind.nopt
    if not k:
        return [()]
    f, r = Fraction, []

    def put(*o):
        o = tuple(f(x) for x in o)
        if o not in r:
            r.append(o)
    h = f(1, 2)
    put(*[3 + j for j in range(k)])
    put(*[2] * k)
    put(*[f(5, 2) + k - 1 - j for j in range(k)])
    for v in (4, 3, 2, 5, 1) if many else (4, 2):
        put(*[v + j for j in range(k)])
        put(*[v + f(1, 2)] * k)
        put(*[v + k - 1 - j for j in range(k)])
        put(*[v] * k)
    put(*[8 + j for j in range(k)])
    if k == 3:
        put(3, 5, 4), put(2, 2, 4), put(4, 2, 2)
    put(*[h] * k)
    for j in range(k):
        put(*[h if i == j else 3 + i for i in range(k)])
        put(*[3 if i == j else h for i in range(k)])
        put(*[3 if i == j else f(1, 4 + 4 * i) for i in range(k)])
    put(*[f(1, 50), f(1, 5)][:k] + [f(1, 5)] * (k - 2))
    return r


def orders(ind):
    """{text: rank of a bar} of the orders of the bars that contexts may assume (None: none)"""
    level = [{'low': 1, 'open': 2, 'close': 3, 'high': 5}.get(x, 4) for x in ind.in_names]
    f = lambda g: lambda b: g(b // ind.nin, level[b % ind.nin] + b % ind.nin / 100)
    return {'rising bars': f(lambda b, l: 10 * b + l), 'falling bars': f(lambda b, l: l - 10 * b),
            'bars up and down': f(lambda b, l: 1000 * l + b * 5 % 13 + 13 * (b // 13)), '': None}


def first(ctx, ind, o):
    """start(o), when small enough to look at"""
    try:
        for s, st in numdrv.start_values(ctx, ind, State(Poly.universe(), {}), optval=list(o)):
            c = Num.fixed(None, s, st) if st is not None and len(st.t) <= 3 else None
            if c is None and st is not None:
                pin = {it[0][0]: -k // it[0][1] for e, k, it in s.p.pin().cons or () if e and len(it) == 1}
                if all(v in pin for v in st.t):
                    c = st.c + sum(k * pin[v] for v, k in st.t.items())
            if c is not None:
                return c
    except num.GiveUp:
        pass
    return None


@contextlib.contextmanager
def within(seconds):
    """gives up after so many seconds"""
    def ring(*_):
        raise num.GiveUp('time limit')
    old = signal.signal(signal.SIGALRM, ring)
    signal.setitimer(signal.ITIMER_REAL, max(seconds, .1))
    try:
        yield
    finally:
        signal.setitimer(signal.ITIMER_REAL, 0)
        signal.signal(signal.SIGALRM, old)


class Runs:
    """the outputs of an indicator's variants in narrow contexts"""

    def __init__(self, ctx, ind, budget):
        self.ctx, self.ind, self.each, self.end = ctx, ind, max(12, budget / 8), time.time() + budget
        self.undef, self.contexts, self.giveup, self.streams = {}, 0, [], {}
        self.order, self.more = '', 5
        self.decision = optdom.Decision(ctx.fn(ind.fns['plain']), 'plain')

    def late(self):
        return time.time() > self.end

    def batch(self, kind, n, o):
        """{(output, element): ((must, may, form), instruction)} of a call on n bars"""
        try:
            with within(min(self.each, self.end - time.time() + 1)):
                a, info = shadow.batch_outs(self.ctx, self.ind, kind, (n, o), timeout=self.each)
        except num.GiveUp as e:
            self.giveup.append(str(e))
            return None
        self.note(a.undef, self.ind.fns[kind], 'size=%d' % n, o)
        if info.get('gaveup'):
            self.giveup.append(info['gaveup'])
            return None
        return a.outs

    def stream(self, sizes, o, start):
        if o not in self.streams:
            self.streams[o] = shadow.ShadowStream(self.ctx, self.ind, 20, narrow=o)
        s = self.streams[o]
        s.made.clear()
        s.deadline = time.time() + self.each
        try:
            with within(min(self.each, self.end - time.time() + 1)):
                outs, undef = s.trace(sizes, start)
        except num.GiveUp as e:
            self.giveup.append(str(e))
            return None
        self.note(undef, self.ind.fns['run'], 'calls of sizes %s' % (sizes,), o)
        return outs

    def note(self, undef, fn, what, o):
        self.contexts += 1
        for k, (i, kind, text) in undef.items():
            self.undef.setdefault((fn, k), (fn, kind, text, i.where(), '%s, %s' % (what, self.at(o))))

    def at(self, o):
        return 'options %s%s' % (show(self.ind, o), self.order and ', ' + self.order)

    def contexts_of(self, limit):
        """[(options, start)] to look at; self.order: what is assumed about the bars; self.more: bars to follow the first output"""
        for text, rank in orders(self.ind).items():
            self.order, vals.ORDER, self.more = text, rank, 9 if text else 5
            self.streams.clear()
            yield from self.options_of(limit)
        vals.ORDER = None

    def options_of(self, limit):
        r = 0
        for o in vectors(self.ind, limit > 4):
            if r >= limit or self.late():
                return
            if self.decision.verdict(tuple(float(x) for x in o)) == 'reject':
                continue
            try:
                with within(5):
                    c = first(self.ctx, self.ind, o)
            except num.GiveUp:
                continue
            if c is None or not 0 <= c <= 40:
                continue
            yield o, int(c)
            r += 1


def show(ind, o):
    return '{%s}' % ', '.join('%s: %s' % (n, int(v) if v.denominator == 1 else float(v)) for n, v in zip(ind.opt_names, o))


def barname(ind, b):
    return '%s of bar %d' % (ind.in_names[b % ind.nin], b // ind.nin)


def contrast(ind, a, b):
    """vals.SAME, None, or how the values a and b certainly differ"""
    va, vb = a[0][2], b[0][2]
    if va is not None and vb is not None:
        d = vals.differ(va, vb)
        if d is None or d == vals.SAME:
            return d
        return ('the weight of %s' % barname(ind, d[0]) if isinstance(d[0], int) else d[0]) + ' is %.6g against %.6g' % d[1]
    for v, o, t in ((va, b, 'second'), (vb, a, 'first')):
        if v is not None and not o[0][1] & shadow.UNK:
            x = vals.essential(v) & ~(o[0][1] >> 2)
            if x:
                return '%s has no influence in the %s' % (barname(ind, (x & -x).bit_length() - 1), t)
    return None
