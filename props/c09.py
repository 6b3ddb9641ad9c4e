"""Every resource acquired is released exactly once, by the matching mechanism, on every path; a stream's free
releases what its new and run acquired."""
import re
import res, resflow, ssa
from core import Finding, Broken
LEVEL = 'proof'


def member(cdem):
    """('ctor'|'dtor', class) of an opaque container member"""
    m = re.match(r'(.*?)::(~?)([A-Za-z_]\w*)(?:<[^()]*>)?\(', cdem)
    s = cdem.split('(')[0]
    # last path component outside template brackets
    depth, cut = 0, None
    for k in range(len(s) - 1, 0, -1):
        if s[k] == '>':
            depth += 1
        elif s[k] == '<':
            depth -= 1
        elif depth == 0 and s[k - 1:k + 1] == '::':
            cut = k
            break
    if cut is None:
        return None
    cls, mem = s[:cut - 1], s[cut + 1:]
    mem = mem.split('<')[0]
    base = re.sub(r'<.*', '', cls).split('::')[-1]
    if mem == base:
        return 'ctor', base
    if mem == '~' + base:
        return 'dtor', base
    return None


def stream_members(f, k, P, may):
    """offsets in the stream object at which containers are constructed / destroyed, heap pointers stored / released"""
    fl = resflow.Flow(f, k, P, may)
    con, des, ptr, rel = {}, {}, {}, {}
    heapstream = {h for h, c in fl.canon.items() if c == 'stream'}
    for i in f.all():
        if i.op in ('call', 'invoke') and i.callee:
            m = member(i.cdem or '')
            if m and i.ops:
                c = fl.cellof(i.ops[0])
                if c and c[0] == 'stream':
                    (con if m[0] == 'ctor' else des)[c[1]] = (m[1], i)
            elif i.callee in ssa.DELS or i.callee.startswith(('_Zdl', '_Zda')):
                fam = ssa.DELS.get(i.callee) or ('new' if i.callee.startswith('_Zdl') else 'new[]')
                for b in P.bases(i.ops[0]):
                    if b[0] == 'fld' and b[1][0] in ('stream', 'heap') and b[2] is not None:
                        rel[b[2]] = (fam, i)
                    if b[0] == 'stream' or (b[0] == 'heap' and b[1] in heapstream):
                        rel['self'] = (fam, i)
        elif i.op == 'store' and i.vty == 'ptr':
            c = fl.cellof(i.ops[1])
            if c and c[0] == 'stream':
                for b in P.bases(i.ops[0]):
                    if b[0] == 'heap':
                        ptr[c[1]] = (ssa.alloc_family(f.defs[b[1]].callee), i)
    return con, des, ptr, rel, heapstream


def run(ctx, tier):
    r, st = res.analyse(ctx)
    finds = []
    for f, k, s, rule, msg, i in r:
        if rule in res.PAIR_RULES or rule == 'analysis-limit':
            finds.append(Finding(f.name, rule, resflow.short(s.i), msg, s.i.where()))
    n = sum(st['sites'].values())
    fns, _ = ctx.prog()
    may = resflow.May(fns)
    nown = nstream = 0
    for r in ctx.registry:
        if not r.fns['new']:
            continue
        nstream += 1
        fn, ff, fr = (ctx.fn(r.fns[k]) for k in ('new', 'free', 'run'))
        Pn, Pf, Pr = ssa.Ptrs(fn, 'new'), ssa.Ptrs(ff, 'free'), ssa.Ptrs(fr, 'run')
        con, _, ptr, _, hs = stream_members(fn, 'new', Pn, may)
        con2, _, ptr2, _, _ = stream_members(fr, 'run', Pr, may)
        _, des, _, rel, _ = stream_members(ff, 'free', Pf, may)
        con.update({o: c for o, c in con2.items() if o not in con})
        ptr.update({o: c for o, c in ptr2.items() if o not in ptr})
        fam = {ssa.alloc_family(fn.defs[h].callee) for h in hs if h in fn.defs and fn.defs[h].op in ('call', 'invoke') and fn.defs[h].callee in ssa.ALLOCS}
        nown += 1
        if 'self' not in rel:
            finds.append(Finding(ff.name, 'stream-not-released', 'self', 'does not release the stream object', ff.file))
        elif len(fam) == 1 and rel['self'][0] not in fam:
            finds.append(Finding(ff.name, 'mismatched-release', 'self', 'releases with %s an object acquired with %s' % (rel['self'][0], sorted(fam)), rel['self'][1].where()))
        for o, (cls, i) in sorted(con.items()):
            nown += 1
            if o not in des:
                finds.append(Finding(ff.name, 'member-not-released', cls, 'does not destroy the %s that %s constructs in the stream (offset %d)' % (cls, i.fn.name, o), i.where()))
        for o, (fm, i) in sorted(ptr.items()):
            nown += 1
            if o not in rel:
                finds.append(Finding(ff.name, 'member-not-released', 'buffer', 'does not release the %s buffer that %s stores in the stream (offset %d)' % (fm, i.fn.name, o), i.where()))
            elif rel[o][0] != fm:
                finds.append(Finding(ff.name, 'mismatched-release', 'buffer', 'releases with %s the buffer acquired with %s (offset %d)' % (rel[o][0], fm, o), i.where()))
    if n < 250 or nown < 100:
        raise Broken('too few instances: %d sites, %d stream members' % (n, nown))
    return finds, {'obligations': n + nown, 'discharged': n + nown - len(finds), 'functions': st['functions'], 'sites_by_kind': st['sites'], 'sites_by_callee': st['by_callee'],
                   'streams': nstream, 'stream_owned_resources': nown, 'checker_cmd': './check.py C09',
                   'trusted_base': ['clang 18, LLVM inliner', 'tool/tian.cpp', 'lib/resflow.py']}, ['standard containers release their own storage in their destructors']
