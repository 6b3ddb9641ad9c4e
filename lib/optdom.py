"""The option-validation decision of an entry point, evaluated on the finite set of orderings its
comparisons can distinguish."""
import itertools
import ssa, sccp

REJECT = 1


def reject_region(fn):
    """(blocks that can still reach a return of TI_INVALID_OPTION, True) from the returned values"""
    src = set()    # pred block of edges / rets that yield 1 or an unresolved value
    tail = set()   # blocks entered through such an edge, and what follows them

    def walk(o, at, seen, to=None):
        if o[0] == 'c':
            if o[1] == REJECT:
                src.add(at)
                if to is not None:
                    tail.add(to)
            return
        if o[0] == 'v' and o[1] in fn.defs:
            i = fn.defs[o[1]]
            if (i.id, at) in seen:
                return
            seen.add((i.id, at))
            if i.op == 'phi':
                for p, q in i.ops:
                    walk(q, p, seen, i.bb)
                return
            if i.op == 'select':
                walk(i.ops[1], at, seen, to)
                walk(i.ops[2], at, seen, to)
                return
        if o[0] == 'undef':
            return
        src.add(at)
        if to is not None:
            tail.add(to)

    for i in fn.all():
        if i.op == 'ret' and i.ops:
            walk(i.ops[0], i.bb, set())
    region = set(src)
    work = list(src)
    while work:
        b = work.pop()
        for p in fn.preds[b]:
            if p not in region:
                region.add(p)
                work.append(p)
    work = list(tail)
    while work:
        b = work.pop()
        if b in region and b not in tail:
            continue
        tail.add(b)
        for x in fn.succs[b]:
            if x not in tail:
                tail.add(x)
                work.append(x)
    return region, tail


def option_loads(fn, kind):
    P = ssa.Ptrs(fn, kind)
    res = {}
    for i in fn.all():
        if i.op == 'load' and ('options',) in P.bases(i.ops[0]):
            root, c = P.off(i.ops[0])
            res[i.id] = None if c is None else c // 8
    return res


def relevant(fn, region, loads):
    """options feeding a branch condition of the region, constants compared, per option"""
    opts, consts = set(), set()
    seen = set()

    def walk(o):
        for v in ssa.opvars(o):
            if v in seen:
                continue
            seen.add(v)
            i = fn.defs.get(v)
            if i is None:
                continue
            if v in loads:
                opts.add(loads[v])
                continue
            if i.op == 'load':
                continue
            for q in ssa.operands(i):
                if q[0] == 'c' and abs(q[1]) < 10 ** 6 and i.op != 'getelementptr':
                    consts.add(float(q[1]))
                elif q[0] == 'f' and abs(sccp.f_of_hex(q[1])) < 1e6:
                    consts.add(sccp.f_of_hex(q[1]))
                walk(q)
    for b in region:
        t = fn.term(b)
        if t.op in ('br', 'switch') and t.ops:
            walk(t.ops[0])
    for i in fn.all():
        if i.op == 'ret' and i.ops:
            # returned selects
            walk(i.ops[0])
    return opts, consts


class Decision:
    def __init__(self, fn, kind):
        self.fn, self.kind = fn, kind
        self.region, self.tail = reject_region(fn)
        self.loads = option_loads(fn, kind)
        self.opts, self.consts = relevant(fn, self.region, self.loads)
        self.stop = set(range(len(fn.blocks))) - self.region - self.tail
        self.cache = {}
        self.rejecting_blocks = set()

    def verdict(self, vec):
        """'reject' / 'accept' / 'mixed' for an option vector (tuple of floats)"""
        key = tuple(vec[k] for k in sorted(o for o in self.opts if o is not None and o < len(vec)))
        if key in self.cache:
            return self.cache[key]

        def loader(i):
            k = self.loads.get(i.id)
            if k is None or i.id not in self.loads or k >= len(vec):
                return None
            return vec[k]
        r = sccp.Run(self.fn, loader, self.stop)
        vals = r.ret_values()
        if r.stopped or (vals and REJECT not in vals and None not in vals):
            out = 'accept' if REJECT not in vals and None not in vals else 'mixed'
        elif vals == {REJECT}:
            out = 'reject'
            self.rejecting_blocks |= r.blocks
        elif not vals:
            out = 'accept'
        else:
            out = 'mixed'
        self.cache[key] = out
        return out


def cells(nopt, opts, consts, limit=3000):
    """representatives of the orderings distinguished by comparisons with `consts` and between options"""
    if not nopt:
        return [()], 'exhaustive'
    pts = set()
    for c in set(consts) | {0.0, 1.0}:
        for d in (-1, -.5, 0, .5, 1):
            pts.add(c + d)
    m = max(pts)
    pts |= {m + 2, m + 2.5, m + 7, m + 30}
    pts = sorted(pts)
    rel = sorted(o for o in opts if o is not None and o < nopt)
    base = [max(5.0, m + 3) + 3 * k for k in range(nopt)]
    if not rel:
        return [tuple(base)], 'no option is tested'
    if len(pts) ** len(rel) <= limit:
        res = []
        for t in itertools.product(pts, repeat=len(rel)):
            v = list(base)
            for k, x in zip(rel, t):
                v[k] = x
            res.append(tuple(v))
        return res, 'exhaustive'
    res = []
    bases = [base, [max(5.0, m + 3) + 3 * (nopt - k) for k in range(nopt)], [m + 4.0] * nopt, [1.0] * nopt, [2.0] * nopt,
             [1.0 + k for k in range(nopt)], [float(nopt - k) for k in range(nopt)], [.5] * nopt]
    for bs in bases:
        for a, b in itertools.combinations(rel, 2):
            for x, y in itertools.product(pts, repeat=2):
                v = list(bs)
                v[a], v[b] = x, y
                res.append(tuple(v))
        if len(rel) == 1:
            for x in pts:
                v = list(bs)
                v[rel[0]] = x
                res.append(tuple(v))
    return list(dict.fromkeys(res)), 'pairwise around %d base vectors' % len(bases)
