"""The caller's input bars, options and argument arrays are never modified."""
import effects, ssa
from core import Finding, Broken
LEVEL = 'proof'
CALLER = {'options': 'the options', 'inputs': 'the array of input pointers', 'outputs': 'the array of output pointers', 'in': 'an input series'}


def run(ctx, tier):
    fns, _ = ctx.prog()
    S = effects.Summary(fns)
    finds, nst, nfn, nclass = [], 0, 0, {}
    for r, k, f in ctx.entries():
        nfn += 1
        P = ssa.Ptrs(f, k)

        def chk(o, i, how):
            nonlocal nst
            nst += 1
            for b in P.bases(o):
                nclass[b[0]] = nclass.get(b[0], 0) + 1
                if b[0] in CALLER:
                    finds.append(Finding(f.name, 'writes-caller-data', b[0], '%s may modify %s' % (how, CALLER[b[0]]), i.where()))
        for i in f.all():
            if i.op == 'store':
                chk(i.ops[1], i, 'a store')
            elif i.op in ('atomicrmw', 'cmpxchg'):
                chk(i.ops[0], i, i.op)
            elif i.op in ('call', 'invoke') and i.callee:
                w = effects.llvm_writes(i)
                if w is not None:
                    for o in w:
                        chk(o, i, i.callee)
                elif i.callee.startswith('llvm.'):
                    pass
                elif i.callee in fns:
                    for a in S.get(i.callee)['wargs']:
                        if a < len(i.ops):
                            chk(i.ops[a], i, 'the call of ' + i.cdem[:70])
                elif not effects.external_ok(i.callee) or i.callee in ('modf', 'frexp', 'realloc', 'free') or i.callee.startswith('_Zd'):
                    for o in i.ops:
                        if o[0] in ('v', 'gep'):
                            chk(o, i, 'the call of ' + i.cdem[:70])
    if nfn < 520 or nst < 2000 or not nclass.get('out') or not nclass.get('stream'):
        raise Broken('too few instances: %d functions, %d writes, %s' % (nfn, nst, nclass))
    return finds, {'obligations': nst, 'discharged': nst - len(finds), 'functions': nfn, 'write_targets_by_kind': nclass,
                   'checker_cmd': './check.py C16', 'trusted_base': ['clang 18 front end and LLVM inliner', 'tool/tian.cpp', 'lib/ssa.py pointer bases']}, \
        ['the caller does not pass overlapping input and output arrays']
