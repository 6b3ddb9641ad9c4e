"""Looking up a name finds exactly the registered indicators: constant propagation of every class of strings through the
lookup's control flow.  A string is known to the function only through its order relative to the names in the table (and
its bytes, if it looks at them), so 2K+1 classes - equal to a name, or strictly between two of them - cover all strings."""
import bisect
from core import Finding, Broken
LEVEL = 'proof'
STEPS = 20000


class Unknown(Exception):
    pass


class Bad(Exception):
    pass


def cmp(a, b):
    return (a > b) - (a < b)


class Name:
    """the argument: a concrete string, or the class of all strings strictly between two neighbours in `order`"""
    def __init__(self, text=None, gap=None, order=None):
        self.text, self.gap, self.order = text, gap, order

    def sign(self, s):
        if self.text is not None:
            return cmp(self.text, s)
        k = bisect.bisect_left(self.order, s)
        if k < len(self.order) and self.order[k] == s:
            return 1 if k < self.gap else -1
        raise Unknown()

    def byte(self, k):
        if self.text is None:
            raise Unknown()
        b = self.text + b'\0'
        if k < 0 or k >= len(b):
            raise Bad('reads byte %d of a string of length %d' % (k, len(self.text)))
        return b[k]

    def show(self):
        if self.text is not None:
            return repr(self.text.decode('latin-1'))
        lo = self.order[self.gap - 1].decode() if self.gap else None
        hi = self.order[self.gap].decode() if self.gap < len(self.order) else None
        return 'a string between %r and %r' % (lo, hi) if lo and hi else 'a string %s %r' % ('after' if lo else 'before', lo or hi)


def flatten(init):
    """offset -> value of a nested initialiser, natural alignment"""
    cells, pos = {}, 0

    def walk(x):
        nonlocal pos
        if isinstance(x, list):
            for y in x:
                walk(y)
            return
        w = 8 if isinstance(x, dict) else 4
        pos = (pos + w - 1) // w * w
        cells[pos] = x
        pos += w
    for e in init:
        walk(e)
        pos = (pos + 7) // 8 * 8
    return cells, pos


class Eval:
    def __init__(self, ctx, fn):
        self.ctx, self.fn = ctx, fn
        self.gl = ctx.globals('flat')
        self.flat = {}
        self.paths = 0

    def table(self, g):
        if g not in self.flat:
            d = self.gl.get(g)
            if d is None or not isinstance(d.get('init'), list):
                raise Unknown()
            self.flat[g] = flatten(d['init'])
            if self.flat[g][1] != d.get('size', self.flat[g][1]):
                raise Unknown()
        return self.flat[g]

    def val(self, o, env):
        k = o[0]
        if k == 'c':
            return o[1]
        if k == 'v':
            return env.get(o[1])
        if k == 'null':
            return 'null'
        if k == 'g':
            return ('g', o[1], 0)
        if k == 'gep':
            return self.gep(o, env)
        return None

    def gep(self, g, env):
        b = self.val(g[1], env)
        off = g[2]
        for x, sc in g[3]:
            v = self.val(x, env)
            if not isinstance(v, int):
                return None
            off += v * sc
        if isinstance(b, tuple):
            return b[:-1] + (b[-1] + off,)
        return None

    def string(self, p):
        if not (isinstance(p, tuple) and p[0] == 's'):
            raise Unknown()
        return p[1][p[2]:]

    def load(self, p, i):
        if p == 'null':
            raise Bad('dereferences a null pointer')
        if not isinstance(p, tuple):
            raise Unknown()
        if p[0] == 'name':
            if i.sz != 1:
                raise Unknown()
            b = self.name.byte(p[-1])
            return b - 256 if b > 127 else b
        if p[0] == 's':
            b = p[1] + b'\0'
            if p[2] < 0 or p[2] >= len(b):
                raise Bad('reads outside a name of the table')
            b = b[p[2]]
            return b - 256 if b > 127 else b
        if p[0] == 'l':
            return self.mem.get(p)
        cells, size = self.table(p[1])
        if p[2] < 0 or p[2] >= size:
            raise Bad('reads outside the table (offset %d of %d)' % (p[2], size))
        if p[2] not in cells:
            raise Unknown()
        x = cells[p[2]]
        if isinstance(x, dict):
            if 'str' in x:
                return ('s', x['str'].encode('latin-1'), 0)
            if 'null' in x:
                return 'null'
            return None
        return x

    def arg(self, p):
        """a C string argument: bytes or the Name"""
        if p == 'null':
            raise Bad('passes a null pointer to a string function')
        if isinstance(p, tuple) and p[0] == 'name':
            if self.name.text is not None:
                if p[-1] > len(self.name.text):
                    raise Bad('reads behind the end of the string')
                return self.name.text[p[-1]:]
            if p[-1] == 0:
                return self.name
            raise Unknown()
        return self.string(p)

    def call(self, i, env):
        c = i.callee
        a = [self.val(o, env) for o in i.ops]
        if c == 'strcmp':
            x, y = self.arg(a[0]), self.arg(a[1])
            if isinstance(x, Name):
                return x.sign(y) if not isinstance(y, Name) else 0
            if isinstance(y, Name):
                return -y.sign(x)
            return cmp(x, y)
        if c == 'strlen':
            x = self.arg(a[0])
            if isinstance(x, Name):
                raise Unknown()
            return len(x)
        if c in ('strncmp', 'memcmp', 'bcmp', 'strcasecmp', 'strncasecmp'):
            x, y = self.arg(a[0]), self.arg(a[1])
            if isinstance(x, Name) or isinstance(y, Name):
                raise Unknown()
            if c.endswith('casecmp'):
                x, y = x.lower(), y.lower()
            if 'n' in c[:4] or c in ('memcmp', 'bcmp'):
                if not isinstance(a[2], int):
                    raise Unknown()
                if c in ('memcmp', 'bcmp') and (a[2] > len(x) + 1 or a[2] > len(y) + 1):
                    raise Bad('compares behind the end of a string')
                x, y = (x + b'\0')[:a[2]], (y + b'\0')[:a[2]]
            return cmp(x, y)
        if c in ('tolower', 'toupper') and isinstance(a[0], int):
            return ord(getattr(chr(a[0] & 255), c[2:] if False else ('lower' if c == 'tolower' else 'upper'))())
        if c and (c.startswith('llvm.dbg') or c.startswith('llvm.lifetime')):
            return None
        return None

    def bits(self, ty):
        return int(ty[1:]) if ty[:1] == 'i' and ty[1:].isdigit() else None

    def wrap(self, v, ty):
        n = self.bits(ty)
        if n is None or n == 1:
            return v & 1 if n == 1 else v
        v &= (1 << n) - 1
        return v - (1 << n) if v >> (n - 1) else v

    def step(self, i, env):
        op, ty = i.op, i.ty
        if op == 'load':
            return self.load(self.val(i.ops[0], env), i)
        if op == 'getelementptr':
            return self.gep(i.gep, env)
        if op == 'alloca':
            return ('l', i.id, 0)
        if op in ('call', 'invoke'):
            return self.call(i, env)
        v = [self.val(o, env) for o in i.ops]
        if op in ('sext', 'trunc', 'freeze', 'bitcast'):
            return self.wrap(v[0], ty) if isinstance(v[0], int) and self.bits(ty) else v[0]
        if op == 'zext':
            if not isinstance(v[0], int):
                return None
            o = i.ops[0]
            d = self.fn.defs.get(o[1]) if o[0] == 'v' else None
            n = self.bits(d.ty) if d is not None else None
            return v[0] & ((1 << n) - 1) if n else None
        if op == 'select':
            return None if not isinstance(v[0], int) else v[1] if v[0] & 1 else v[2]
        if op == 'icmp':
            x, y = v
            if isinstance(x, tuple) and y == 'null' or isinstance(y, tuple) and x == 'null':
                return {'eq': 0, 'ne': 1}.get(i.pred)
            if isinstance(x, tuple) and isinstance(y, tuple) and x[:-1] == y[:-1]:
                x, y = x[-1], y[-1]
            if x is None or y is None or isinstance(x, tuple) or isinstance(y, tuple):
                return None
            if x == 'null' or y == 'null':
                return {'eq': int(x == y), 'ne': int(x != y)}.get(i.pred)
            p = i.pred
            if p[0] == 'u':
                x, y, p = x & (2 ** 64 - 1), y & (2 ** 64 - 1), 's' + p[1:]
            return int({'eq': x == y, 'ne': x != y, 'slt': x < y, 'sle': x <= y, 'sgt': x > y, 'sge': x >= y}[p])
        if len(v) == 2 and all(isinstance(x, int) for x in v):
            x, y = v
            if op in ('sdiv', 'srem', 'udiv', 'urem'):
                if y == 0:
                    raise Bad('divides by zero')
                q = abs(x) // abs(y) * (1 if (x < 0) == (y < 0) else -1)
                return self.wrap(q if op[1:] == 'div' else x - q * y, ty)
            n = self.bits(ty) or 64
            u = x & ((1 << n) - 1)
            r = {'add': x + y, 'sub': x - y, 'mul': x * y, 'and': x & y, 'or': x | y, 'xor': x ^ y, 'shl': x << (y & 63), 'ashr': x >> (y & 63), 'lshr': u >> (y & 63)}.get(op)
            return None if r is None else self.wrap(r, ty)
        return None

    def run(self, name):
        """set of results (('g', table, offset), 'null' or None) over all paths; raises Bad on a definite fault"""
        self.name = name
        fn = self.fn
        self.mem = {}
        env = {fn.args[0]: ('name', 0)}
        b, pb, seen, live = 0, None, set(), None
        forked = False
        for _ in range(STEPS):
            new = {}
            for i in fn.blocks[b]:
                if i.op == 'phi':
                    new[i.id] = next((self.val(o, env) for p, o in i.ops if p == pb), None)
            env.update(new)
            if len(fn.preds[b]) > 1:
                st = (b, tuple(sorted(((k, v) for k, v in env.items() if k in self.loopvars()), key=repr)), tuple(sorted(self.mem.items(), key=repr)))
                if st in seen:
                    raise Bad('never ends')
                seen.add(st)
            for i in fn.blocks[b]:
                if i.op == 'phi':
                    continue
                if i.op == 'store':
                    p = self.val(i.ops[1], env)
                    if not (isinstance(p, tuple) and p[0] == 'l'):
                        raise Unknown()
                    self.mem[p] = self.val(i.ops[0], env)
                    continue
                if i.op in ('br', 'switch', 'ret', 'unreachable'):
                    break
                env[i.id] = self.step(i, env)
                if i.op == 'invoke':
                    break
            t = fn.term(b)
            if t.op == 'ret':
                return self.val(t.ops[0], env)
            if t.op == 'br':
                if len(t.succ) == 2:
                    c = self.val(t.ops[0], env)
                    if not isinstance(c, int):
                        raise Unknown()
                    nb = t.succ[0] if c & 1 else t.succ[1]
                else:
                    nb = t.succ[0]
            elif t.op == 'switch':
                c = self.val(t.ops[0], env)
                if not isinstance(c, int):
                    raise Unknown()
                nb = next((x for v, x in t.cases if v == c), t.d['default'])
            elif t.op == 'invoke':
                nb = t.normal
            else:
                raise Unknown()
            b, pb = nb, b
        raise Bad('is still running after %d steps' % STEPS)

    def loopvars(self):
        if not hasattr(self, '_lv'):
            self._lv = {i.id for i in self.fn.all() if i.op == 'phi'}
        return self._lv


def variants(names):
    """strings that are easily confused with registered ones"""
    out = {b'', b'\x01', b' ', b'~', b'\xff', b'\xc3\xa4', b'zzzzzz', b'A', b'a', b'z', b'_', b'0', b'ti_sma'}
    for n in names:
        for s in (n[:-1], n + b'\x01', n + b' ', n + b'_', n + b'0', n + b'a', n + b'z', n.upper(), n.capitalize(), n[:1], n[:2], n[:3], n[1:], n + n,
                  n[:-1] + bytes([n[-1] + 1]), n[:-1] + bytes([n[-1] - 1]), n + b'\xff', b' ' + n, n[::-1], b'ti_' + n, n + b'_ref', n[:-1] + b'\xff', n[:1].upper() + n[1:], n + b'aaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaa'):
            out.add(s)
    return sorted(out)


def run(ctx, tier):
    fn = ctx.fn('ti_find_indicator', 'flat', ('--norot',))
    if fn is None or len(fn.args) != 1:
        raise Broken('ti_find_indicator not found')
    reg = ctx.registry
    g = ctx.globals('flat')['ti_indicators']
    es = g['size'] // len(ctx.table)
    names = [r.name.encode('latin-1') for r in reg]
    finds, ob, unk = [], 0, []
    for k, n in enumerate(names):
        ob += 1
        if n in names[:k]:
            finds.append(Finding('ti_find_indicator', 'two indicators of one name', reg[k].name, '%r is registered twice' % reg[k].name))
    order = sorted(set(names))
    at = {n: k for k, n in enumerate(names)}
    ev = Eval(ctx, fn)
    cases = [Name(text=n) for n in order] + [Name(gap=k, order=order) for k in range(len(order) + 1)]
    extra = [Name(text=s) for s in variants(names) if s not in at]
    decided = 0
    for c in cases + extra:
        ob += 1
        want = ('g', 'ti_indicators', at[c.text] * es) if c.text in at else 'null'
        try:
            r = ev.run(c)
        except Unknown:
            unk.append(c.show())
            continue
        except Bad as e:
            finds.append(Finding('ti_find_indicator', 'lookup', 'lookup', 'looking up %s: the function %s' % (c.show(), e)))
            continue
        if r is None:
            unk.append(c.show())
            continue
        decided += 1
        if r != want:
            show = lambda x: 'null' if x == 'null' else 'the record of %s' % reg[x[2] // es].name if x[:2] == ('g', 'ti_indicators') and x[2] % es == 0 and x[2] // es < len(reg) else repr(x)
            finds.append(Finding('ti_find_indicator', 'lookup', 'lookup', 'looking up %s yields %s, expected %s' % (c.show(), show(r), show(want)), fn.term(0).where()))
    if decided + len(finds) < len(names) and not unk:
        raise Broken('only %d lookups decided' % decided)
    cov = {'explanation': 'the compiled lookup is evaluated on every class of strings (equal to a registered name, or strictly between two neighbours: %d classes cover all strings as long as the function looks at the string through comparisons with table names) and on %d confusable constant strings; result, termination and table accesses are judged' % (len(cases), len(extra)),
           'classes': len(cases), 'strings': len(extra), 'decided': decided, 'undecided': len(unk), 'undecided_cases': unk[:10], 'obligations': ob, 'names': len(names),
           'samples': ['lookup of %s in %d blocks' % (cases[0].show(), len(fn.blocks))]}
    return finds, cov, ['strcmp and friends behave as in C (unsigned bytes)']
