"""SSA view over the JSON dumped by tian: CFG, dominators, loops, pointer bases."""
from functools import lru_cache


class Ins:
    __slots__ = ('id', 'op', 'ty', 'ops', 'd', 'fn', 'bb', 'pos')

    def __init__(self, d, fn, bb, pos):
        self.d = d
        self.id = d['id']
        self.op = d['op']
        self.ty = d['ty']
        self.ops = d.get('ops', [])
        self.fn = fn
        self.bb = bb
        self.pos = pos

    def __getattr__(self, k):
        try:
            return self.d[k]
        except KeyError:
            return None

    @property
    def incoming(self):
        return self.ops  # phi: [[bb, operand]...]

    def where(self):
        l = self.d.get('loc')
        if not l:
            return '%s:%s' % (self.fn.file, self.fn.line)
        # innermost repo location plus the outermost (in the indicator's own file)
        pairs = [(l[k], l[k + 1]) for k in range(0, len(l), 2)]
        pairs = [p for p in pairs if not p[0].startswith('/usr')] or pairs
        out = []
        for p in pairs:
            s = '%s:%d' % (p[0].split('/./')[-1], p[1])
            if s not in out:
                out.append(s)
        return ' <- '.join(out[:1] + (out[-1:] if len(out) > 1 else []))

    def __repr__(self):
        return '%%%d=%s(%s)' % (self.id, self.op, ','.join(map(str, self.ops)))


class Fn:
    def __init__(self, d, prog=None):
        self.d = d
        self.prog = prog
        self.name = d['name']
        self.dem = d['dem']
        self.file = d.get('file', '?')
        self.line = d.get('line', 0)
        self.args = [a['id'] for a in d['args']]
        self.argnames = [a['name'] for a in d['args']]
        self.argtys = [a['ty'] for a in d['args']]
        self.ret = d['ret']
        self.blocks = [[Ins(i, self, b, k) for k, i in enumerate(bl)] for b, bl in enumerate(d['blocks'])]
        self.defs = {}
        for bl in self.blocks:
            for i in bl:
                self.defs[i.id] = i
        self.argidx = {a: k for k, a in enumerate(self.args)}
        self.succs = []
        for bl in self.blocks:
            t = bl[-1]
            s = []
            if t.op == 'br':
                s = list(t.succ)
            elif t.op == 'switch':
                s = [c[1] for c in t.cases] + [t.d['default']]
            elif t.op == 'invoke':
                s = [t.normal, t.unwind]
            self.succs.append(s)
        self.preds = [[] for _ in self.blocks]
        for b, s in enumerate(self.succs):
            for x in s:
                if b not in self.preds[x]:
                    self.preds[x].append(b)
        self.loops = d['loops']
        self._idom = None
        self._users = None

    def all(self):
        for bl in self.blocks:
            yield from bl

    def term(self, b):
        return self.blocks[b][-1]

    # -- users
    @property
    def users(self):
        if self._users is None:
            u = {}
            for i in self.all():
                for o in operands(i):
                    for v in opvars(o):
                        u.setdefault(v, []).append(i)
            self._users = u
        return self._users

    # -- rpo / dominators
    def rpo(self):
        seen, order = set(), []
        st = [(0, iter(self.succs[0]))]
        seen.add(0)
        while st:
            b, it = st[-1]
            for s in it:
                if s not in seen:
                    seen.add(s)
                    st.append((s, iter(self.succs[s])))
                    break
            else:
                order.append(b)
                st.pop()
        return order[::-1]

    @property
    def idom(self):
        if self._idom is None:
            order = self.rpo()
            num = {b: k for k, b in enumerate(order)}
            idom = {0: 0}
            ch = True
            while ch:
                ch = False
                for b in order[1:]:
                    new = None
                    for p in self.preds[b]:
                        if p in idom:
                            if new is None:
                                new = p
                            else:
                                x, y = p, new
                                while x != y:
                                    while num[x] > num[y]:
                                        x = idom[x]
                                    while num[y] > num[x]:
                                        y = idom[y]
                                new = x
                    if idom.get(b) != new:
                        idom[b] = new
                        ch = True
            self._idom = idom
        return self._idom

    @property
    def ipdom(self):
        """nearest block every way from a block to a return passes (None: the return itself)"""
        if getattr(self, '_ipdom', None) is None:
            live = {b for b in range(len(self.blocks)) if self.term(b).op == 'ret'}
            work = list(live)
            while work:
                for p in self.preds[work.pop()]:
                    if p not in live:
                        live.add(p)
                        work.append(p)
            full = (1 << len(self.blocks)) - 1
            pd = {b: full if self.term(b).op != 'ret' else 1 << b for b in live}
            ch = True
            while ch:
                ch = False
                for b in sorted(live, reverse=True):
                    if self.term(b).op == 'ret':
                        continue
                    m = full
                    for s in self.succs[b]:
                        if s in live:
                            m &= pd[s]
                    m |= 1 << b
                    if m != pd[b]:
                        pd[b] = m
                        ch = True
            self._ipdom = {}
            for b in live:
                c = [x for x in range(len(self.blocks)) if pd[b] >> x & 1 and x != b]
                self._ipdom[b] = next((x for x in c if bin(pd[x]).count('1') == len(c)), None)
        return self._ipdom

    def dominates(self, a, b):
        while True:
            if a == b:
                return True
            if b == 0 or b not in self.idom:
                return False
            b = self.idom[b]

    def ins_dominates(self, x, y):
        """instruction x executes before y on every path to y"""
        if x.bb == y.bb:
            return x.pos < y.pos
        return self.dominates(x.bb, y.bb)

    def loop_of(self, b):
        """innermost loop containing block b (index) or None"""
        best = None
        for k, l in enumerate(self.loops):
            if b in l['_set'] if '_set' in l else b in l['blocks']:
                if best is None or l['depth'] > self.loops[best]['depth']:
                    best = k
        return best


def operands(i):
    if i.op == 'phi':
        return [o[1] for o in i.ops]
    r = list(i.ops)
    if i.op == 'getelementptr':
        r = [i.gep]
    if i.d.get('cptr'):
        r.append(i.d['cptr'])
    return r


def opvars(o):
    if not o:
        return []
    if o[0] == 'v':
        return [o[1]]
    if o[0] == 'gep':
        r = opvars(o[1])
        for v, _ in o[3]:
            r += opvars(v)
        return r
    return []


MALLOCS = {'malloc', 'calloc', 'realloc', 'aligned_alloc', 'strdup'}
NEWS = {'_Znwm', '_Znam'}
NEWS_NT = {'_ZnwmRKSt9nothrow_t', '_ZnamRKSt9nothrow_t'}
NEWS_AL = {'_ZnwmSt11align_val_t', '_ZnamSt11align_val_t'}
ALLOCS = MALLOCS | NEWS | NEWS_NT | NEWS_AL
DELS = {'free': 'malloc', '_ZdlPv': 'new', '_ZdlPvm': 'new', '_ZdaPv': 'new[]', '_ZdaPvm': 'new[]'}


def alloc_family(callee):
    if callee in MALLOCS:
        return 'malloc'
    if callee.startswith('_Znw'):
        return 'new'
    if callee.startswith('_Zna'):
        return 'new[]'


class Roles:
    """names of the argument roles of an API entry point"""
    SIG = {
        'start': ['options'],
        'plain': ['size', 'inputs', 'options', 'outputs'],
        'ref': ['size', 'inputs', 'options', 'outputs'],
        'new': ['options', 'pstream'],
        'run': ['stream', 'size', 'inputs', 'outputs'],
        'free': ['stream'],
    }


class Ptrs:
    """Flow-insensitive pointer bases.  base() returns a set of tuples:
    ('options',) ('inputs',) ('outputs',) ('in',k) ('out',k) ('stream',) ('pstream',) ('alloca',id) ('heap',id)
    ('g',name) ('fld',base,off) pointer loaded from memory at constant offset of base, ('arg',k), ('null',), ('unk',id)"""

    def __init__(self, fn, kind):
        self.fn = fn
        self.kind = kind
        roles = Roles.SIG.get(kind)
        self.role = {}
        if roles:
            for k, a in enumerate(fn.args):
                self.role[a] = roles[k]
        else:
            for k, a in enumerate(fn.args):
                self.role[a] = 'arg%d' % k
        self.memo = {}

    def bases(self, o, _seen=None):
        if o[0] == 'v':
            v = o[1]
            if v in self.memo:
                return self.memo[v]
            _seen = _seen or set()
            if v in _seen:
                return frozenset()
            top = not _seen
            _seen.add(v)
            r = self._v(v, _seen)
            if top:
                self.memo[v] = r
            return r
        if o[0] == 'gep':
            return self.bases(o[1], _seen)
        if o[0] == 'g':
            return frozenset([('g', o[1])])
        if o[0] == 'fn':
            return frozenset([('fn', o[1])])
        if o[0] in ('null', 'undef', 'zero'):
            return frozenset([('null',)])
        return frozenset([('unk', str(o))])

    def off(self, o):
        """(root operand, constant byte offset or None)"""
        c = 0
        while True:
            if o[0] == 'gep':
                if o[3]:
                    c = None
                elif c is not None:
                    c += o[2]
                o = o[1]
            elif o[0] == 'v' and o[1] in self.fn.defs and self.fn.defs[o[1]].op == 'getelementptr':
                o = self.fn.defs[o[1]].gep
            elif o[0] == 'v' and o[1] in self.fn.defs and self.fn.defs[o[1]].op in ('bitcast', 'addrspacecast'):
                o = self.fn.defs[o[1]].ops[0]
            else:
                return o, c

    def _v(self, v, seen):
        fn = self.fn
        if v in self.role:
            return frozenset([(self.role[v],)])
        i = fn.defs[v]
        if i.op == 'getelementptr':
            return self.bases(i.gep, seen)
        if i.op in ('bitcast', 'addrspacecast', 'freeze'):
            return self.bases(i.ops[0], seen)
        if i.op == 'inttoptr':
            return frozenset([('unk', v)])
        if i.op == 'phi':
            r = frozenset()
            for _, o in i.ops:
                r |= self.bases(o, seen)
            return r
        if i.op == 'select':
            return self.bases(i.ops[1], seen) | self.bases(i.ops[2], seen)
        if i.op == 'alloca':
            return frozenset([('alloca', v)])
        if i.op in ('call', 'invoke'):
            if i.callee in ALLOCS:
                return frozenset([('heap', v)])
            return frozenset([('call', v)])
        if i.op == 'load':
            root, c = self.off(i.ops[0])
            bs = self.bases(i.ops[0], seen)
            r = set()
            for b in bs:
                if b == ('inputs',):
                    r.add(('in', c // 8 if c is not None else None))
                elif b == ('outputs',):
                    r.add(('out', c // 8 if c is not None else None))
                elif b == ('pstream',):
                    r.add(('stream',))
                elif b[0] in ('null',):
                    pass
                else:
                    r.add(('fld', b, c))
            return frozenset(r)
        if i.op == 'extractvalue':
            return frozenset([('unk', v)])
        return frozenset([('unk', v)])
