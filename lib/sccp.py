"""Conditional constant propagation of one option cell through an entry point.
The options are the only known values; inputs, size and memory are unknown, so both sides of every
branch that does not depend on the options alone are explored."""
import math

UNK = None


def f_of_hex(s):
    return float.fromhex(s)


def wrap(x, ty):
    if ty.startswith('i') and ty[1:].isdigit():
        n = int(ty[1:])
        if n == 1:
            return x & 1
        x &= (1 << n) - 1
        if x >> (n - 1):
            x -= 1 << n
    return x


FC = {'oeq': lambda a, b: a == b, 'one': lambda a, b: a != b, 'ogt': lambda a, b: a > b, 'oge': lambda a, b: a >= b,
      'olt': lambda a, b: a < b, 'ole': lambda a, b: a <= b, 'ueq': lambda a, b: a == b, 'une': lambda a, b: a != b,
      'ugt': lambda a, b: a > b, 'uge': lambda a, b: a >= b, 'ult': lambda a, b: a < b, 'ule': lambda a, b: a <= b,
      'ord': lambda a, b: True, 'uno': lambda a, b: False, 'true': lambda a, b: True, 'false': lambda a, b: False}
IC = {'eq': lambda a, b: a == b, 'ne': lambda a, b: a != b, 'sgt': lambda a, b: a > b, 'sge': lambda a, b: a >= b,
      'slt': lambda a, b: a < b, 'sle': lambda a, b: a <= b}


def operand(o, val):
    k = o[0]
    if k == 'v':
        return val.get(o[1], UNK)
    if k == 'c':
        return o[1]
    if k == 'f':
        return f_of_hex(o[1])
    if k == 'null':
        return ('null',)
    return UNK


def trunc_int(x):
    if x != x or math.isinf(x) or abs(x) > 2 ** 62:
        return UNK
    return int(x)


def evaluate(i, val, loader):
    op = i.op
    if op == 'load':
        return loader(i)
    ops = i.ops
    if op == 'phi':
        return UNK
    if op == 'select':
        c = operand(ops[0], val)
        a, b = operand(ops[1], val), operand(ops[2], val)
        if c is UNK:
            return a if a is not UNK and a == b and type(a) is type(b) else UNK
        return a if c else b
    if op in ('call', 'invoke'):
        n = i.callee or ''
        a = [operand(o, val) for o in ops]
        base = n.split('.')[1] if n.startswith('llvm.') else n
        if any(x is UNK for x in a) or not a or any(isinstance(x, tuple) for x in a):
            return UNK
        try:
            if base == 'fmuladd' or base == 'fma':
                return a[0] * a[1] + a[2]
            if base in ('floor', 'ceil', 'trunc', 'round'):
                f = {'floor': math.floor, 'ceil': math.ceil, 'trunc': math.trunc,
                     'round': lambda x: math.copysign(math.floor(abs(x) + .5), x)}[base]
                return float(f(a[0]))
            if base == 'sqrt':
                return math.sqrt(a[0]) if a[0] >= 0 else UNK
            if base == 'fabs':
                return abs(a[0])
            if base in ('maxnum', 'fmax'):
                return max(a[0], a[1])
            if base in ('minnum', 'fmin'):
                return min(a[0], a[1])
            if base in ('smax', 'smin', 'umax', 'umin') and i.ty.startswith('i'):
                if base[0] == 's' or min(a[0], a[1]) >= 0:
                    return (max if base[1:] == 'max' else min)(a[0], a[1])
            if base == 'abs':
                return abs(a[0])
        except (OverflowError, ValueError):
            return UNK
        return UNK
    a = [operand(o, val) for o in ops]
    if op == 'and' or op == 'or':
        if i.ty == 'i1':
            z = 0 if op == 'and' else 1
            if z in [x for x in a if x is not UNK]:
                return z
        if UNK in a:
            return UNK
        return a[0] & a[1] if op == 'and' else a[0] | a[1]
    if not a or any(x is UNK or isinstance(x, tuple) for x in a):
        return UNK
    try:
        if op == 'fcmp':
            return int(FC[i.pred](a[0], a[1]))
        if op == 'icmp':
            if i.pred in IC:
                return int(IC[i.pred](a[0], a[1]))
            m = (1 << 64) - 1
            return int({'ugt': lambda x, y: x > y, 'uge': lambda x, y: x >= y, 'ult': lambda x, y: x < y,
                        'ule': lambda x, y: x <= y}[i.pred](a[0] & m, a[1] & m))
        if op in ('fptosi', 'fptoui'):
            r = trunc_int(a[0])
            return UNK if r is UNK else wrap(r, i.ty)
        if op in ('sitofp',):
            return float(a[0])
        if op == 'uitofp':
            return float(a[0]) if a[0] >= 0 else UNK
        if op in ('sext', 'freeze', 'bitcast', 'fpext'):
            return a[0]
        if op == 'zext':
            return a[0] if a[0] >= 0 else UNK
        if op == 'trunc':
            return wrap(a[0], i.ty)
        if op == 'fptrunc':
            return UNK
        if op == 'xor':
            return wrap(a[0] ^ a[1], i.ty)
        if op == 'add':
            return wrap(a[0] + a[1], i.ty)
        if op == 'sub':
            return wrap(a[0] - a[1], i.ty)
        if op == 'mul':
            return wrap(a[0] * a[1], i.ty)
        if op == 'shl':
            return wrap(a[0] << a[1], i.ty)
        if op == 'ashr':
            return a[0] >> a[1]
        if op == 'sdiv':
            return UNK if a[1] == 0 else wrap(int(abs(a[0]) // abs(a[1])) * (1 if (a[0] < 0) == (a[1] < 0) else -1), i.ty)
        if op == 'srem':
            return UNK if a[1] == 0 else wrap((abs(a[0]) % abs(a[1])) * (-1 if a[0] < 0 else 1), i.ty)
        if op == 'fadd':
            return a[0] + a[1]
        if op == 'fsub':
            return a[0] - a[1]
        if op == 'fmul':
            return a[0] * a[1]
        if op == 'fdiv':
            return UNK if a[1] == 0 else a[0] / a[1]
        if op == 'fneg':
            return -a[0]
    except (OverflowError, ValueError):
        return UNK
    return UNK


class Run:
    """outcome of one cell: executed blocks/edges, values, set of return operands"""

    def __init__(self, fn, loader, stop=None):
        """stop: set of blocks not entered (reported in self.stopped)"""
        self.fn = fn
        self.val = {}
        self.over = set()
        self.edges = set()
        self.blocks = set()
        self.rets = set()
        self.stopped = set()
        self._loader = loader
        self._stop = stop or set()
        self._run()

    def _set(self, i, x):
        """monotone update; returns True if changed"""
        if i.id in self.over:
            return False
        if x is UNK:
            self.over.add(i.id)
            ch = i.id in self.val
            self.val.pop(i.id, None)
            return True
        if i.id in self.val:
            if self.val[i.id] != x or type(self.val[i.id]) is not type(x):
                self.val.pop(i.id)
                self.over.add(i.id)
                return True
            return False
        self.val[i.id] = x
        return True

    def _run(self):
        fn = self.fn
        if 0 in self._stop:
            self.stopped.add(0)
            return
        work = [0]
        self.blocks.add(0)
        n = 0
        while work:
            b = work.pop()
            n += 1
            if n > 20000:
                raise RuntimeError('sccp does not converge in ' + fn.name)
            changed = False
            for i in fn.blocks[b]:
                if i.op == 'phi':
                    vals, unk = [], False
                    for p, o in i.ops:
                        if (p, b) in self.edges:
                            x = operand(o, self.val)
                            if x is UNK:
                                if o[0] == 'v' and o[1] not in self.over and o[1] in fn.defs:
                                    continue  # not yet evaluated: optimistic
                                unk = True
                            else:
                                vals.append(x)
                    if unk or (vals and any(v != vals[0] or type(v) is not type(vals[0]) for v in vals)):
                        changed |= self._set(i, UNK)
                    elif vals:
                        changed |= self._set(i, vals[0])
                elif i.op in ('br', 'switch', 'ret', 'resume', 'unreachable', 'store'):
                    pass
                elif i.ty != 'void':
                    changed |= self._set(i, evaluate(i, self.val, self._loader))
            t = fn.term(b)
            if t.op == 'ret':
                self.rets.add(b)
                continue
            succ = fn.succs[b]
            if t.op == 'br' and len(succ) == 2:
                c = operand(t.ops[0], self.val)
                if c is not UNK:
                    succ = [succ[0] if c else succ[1]]
            elif t.op == 'switch':
                c = operand(t.ops[0], self.val)
                if c is not UNK:
                    succ = [next((x[1] for x in t.cases if x[0] == c), t.d['default'])]
            for s in succ:
                if s in self._stop:
                    self.stopped.add(s)
                    continue
                new = (b, s) not in self.edges
                self.edges.add((b, s))
                if new or changed:
                    self.blocks.add(s)
                    if s not in work:
                        work.append(s)
            if changed:
                # values defined here may be used in any executed block
                for x in self.blocks:
                    if x != b and x not in work and self.fn.dominates(b, x):
                        work.append(x)

    def ret_values(self):
        """set of possible return values (ints or None for unknown)"""
        res = set()
        for b in self.rets:
            t = self.fn.term(b)
            if not t.ops:
                res.add('void')
                continue
            res |= self._vals(t.ops[0], set())
        return res

    def _vals(self, o, seen):
        x = operand(o, self.val)
        if x is not UNK:
            return {x}
        if o[0] == 'v' and o[1] in self.fn.defs:
            i = self.fn.defs[o[1]]
            if i.id in seen:
                return set()
            seen = seen | {i.id}
            if i.op == 'phi':
                r = set()
                for p, q in i.ops:
                    if (p, i.bb) in self.edges:
                        r |= self._vals(q, seen)
                return r
            if i.op == 'select':
                return self._vals(i.ops[1], seen) | self._vals(i.ops[2], seen)
        return {UNK}
