"""Calls are independent: no process-wide mutable state, no I/O, nothing of the caller retained."""
import effects, ssa
from core import Finding, Broken
LEVEL = 'proof'


def root(b):
    while b[0] == 'fld':
        b = b[1]
    return b


def run(ctx, tier):
    fns, gls = ctx.prog()
    S = effects.Summary(fns)
    finds, nst, ncall, nld, nfn, nret = [], 0, 0, 0, 0, 0
    api = [(r.name, k, f) for r, k, f in ctx.entries()]
    have = {f.name for _, _, f in api}
    for n, d in fns.items():
        if n.startswith('ti_') and n not in have and d['linkage'] == 'ext':
            api.append((n, None, ctx.fn(n)))
    written = {}
    loads = []
    for ind, k, f in api:
        nfn += 1
        P = ssa.Ptrs(f, k)

        def gl(o, i, how):
            for b in P.bases(o):
                r = root(b)
                if r[0] == 'g':
                    g = gls.get(r[1], {})
                    written.setdefault(r[1], f.name)
                    finds.append(Finding(f.name, 'writes-global', g.get('dem', r[1]), '%s writes process-wide %s' % (how, g.get('dem', r[1])), i.where()))
        for i in f.all():
            if i.op == 'store':
                nst += 1
                gl(i.ops[1], i, 'store')
                if i.d.get('vol'):
                    finds.append(Finding(f.name, 'volatile', 'store', 'volatile store', i.where()))
                # retention of caller memory
                if i.vty == 'ptr':
                    nret += 1
                    val = {b for b in P.bases(i.ops[0])}
                    bad = {b for b in val if b[0] in ('options', 'inputs', 'outputs', 'in', 'out', 'pstream')}
                    if bad and k in ('new', 'run'):
                        dst = {root(b)[0] for b in P.bases(i.ops[1])}
                        if dst & {'stream', 'heap', 'unk', 'call'}:
                            finds.append(Finding(f.name, 'retains-caller-pointer', sorted(bad)[0][0], 'a pointer to the caller\'s %s is kept in the stream object' % sorted(bad)[0][0], i.where()))
                if k == 'new' and any(b == ('pstream',) for b in P.bases(i.ops[1])):
                    nret += 1
                    src = {root(b)[0] for b in P.bases(i.ops[0])}
                    if src - {'heap', 'null'}:
                        finds.append(Finding(f.name, 'stream-not-fresh', 'handle', 'the handle given out is not an object allocated by this call', i.where()))
            elif i.op == 'load':
                nld += 1
                if i.d.get('vol'):
                    finds.append(Finding(f.name, 'volatile', 'load', 'volatile load', i.where()))
                for b in P.bases(i.ops[0]):
                    r = root(b)
                    if r[0] == 'g':
                        loads.append((f, r[1], i))
                        if gls.get(r[1], {}).get('decl') and not r[1].startswith(('_ZTI', '_ZTV', '__')):
                            finds.append(Finding(f.name, 'reads-external-object', r[1], 'reads %s, an object defined outside the library' % r[1], i.where()))
            elif i.op in ('atomicrmw', 'cmpxchg', 'fence'):
                finds.append(Finding(f.name, 'atomic', i.op, 'atomic operation: shared state', i.where()))
            elif i.op in ('call', 'invoke'):
                ncall += 1
                if i.callee is None:
                    if k is not None or not any(root(b) == ('g', 'ti_indicators') for b in P.bases(i.d['cptr'])):
                        finds.append(Finding(f.name, 'indirect-call', 'call', 'call through a pointer that is not an entry of the indicator table', i.where()))
                    continue
                w = effects.llvm_writes(i)
                if w is not None:
                    for o in w:
                        gl(o, i, i.callee)
                    continue
                if i.callee.startswith('llvm.'):
                    continue
                if i.callee not in fns:
                    if not effects.external_ok(i.callee):
                        finds.append(Finding(f.name, 'external-call', i.cdem, 'calls %s, which is not a pure or allocation function' % i.cdem, i.where()))
                    continue
                s = S.get(i.callee)
                for e in sorted(s['ext']):
                    if not effects.external_ok(e):
                        finds.append(Finding(f.name, 'external-call', e, 'reaches %s through %s' % (e, i.cdem[:80]), i.where()))
                for g, wh in sorted(s['gl']):
                    finds.append(Finding(f.name, 'writes-global', g, 'writes process-wide %s through %s' % (g, i.cdem[:80]), wh))
                for a in s['wargs']:
                    if a < len(i.ops):
                        gl(i.ops[a], i, 'call of ' + i.cdem[:60])
    if nfn < 540 or nst < 2000 or ncall < 1000:
        raise Broken('too few instances: %d functions, %d stores, %d calls' % (nfn, nst, ncall))
    nmut = len({g for _, g, _ in loads if not gls.get(g, {}).get('const')})
    return finds, {'obligations': nst + ncall + nret, 'discharged': nst + ncall + nret - len(finds), 'functions': nfn, 'stores': nst, 'calls': ncall, 'loads': nld,
                   'pointer_stores': nret, 'non_const_globals_read': nmut,
                   'checker_cmd': './check.py C05', 'trusted_base': ['clang 18 front end and LLVM inliner', 'tool/tian.cpp', 'lib/ssa.py pointer bases', 'lib/effects.py list of pure external functions']}, \
        ['libm, malloc/free and operator new/delete are thread-safe and have no observable state of their own', 'opaque standard container members write only through their object']
