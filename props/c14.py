"""start(): a total, pure function of the declared options."""
import ssa, effects
from core import Finding, Broken
LEVEL = 'proof'


def run(ctx, tier):
    finds, n, nins = [], 0, 0
    for r, k, f in ctx.entries(('start',)):
        n += 1
        P = ssa.Ptrs(f, 'start')
        if f.loops:
            finds.append(Finding(f.name, 'loop', 'loop', 'contains a loop whose bound is not a constant'))
        for i in f.all():
            nins += 1
            if i.op == 'load':
                root, c = P.off(i.ops[0])
                bs = P.bases(i.ops[0])
                if all(b[0] in ('alloca',) or (b[0] == 'g' and ctx.globals().get(b[1], {}).get('const')) for b in bs):
                    continue
                if bs != {('options',)}:
                    finds.append(Finding(f.name, 'reads-other-memory', str(sorted(b[0] for b in bs)), 'reads memory other than the options', i.where()))
                elif c is None or c % 8 or not 0 <= c // 8 < r.nopt:
                    finds.append(Finding(f.name, 'undeclared-option', str(c), 'reads options[%s] of %d declared' % ('?' if c is None else c // 8, r.nopt), i.where()))
            elif i.op == 'store':
                if any(b[0] != 'alloca' for b in P.bases(i.ops[1])):
                    finds.append(Finding(f.name, 'store', 'store', 'writes memory', i.where()))
            elif i.op in ('call', 'invoke'):
                if i.callee is None or not ((i.callee.startswith('llvm.') and effects.llvm_writes(i) is None) or i.callee in effects.MATH):
                    finds.append(Finding(f.name, 'call', (i.cdem or '?')[:60], 'calls %s' % (i.cdem or '?'), i.where()))
            elif i.op in ('sdiv', 'srem', 'udiv', 'urem'):
                if not (i.ops[1][0] == 'c' and i.ops[1][1] != 0):
                    finds.append(Finding(f.name, 'division', 'int', 'integer division by a value that can be zero', i.where()))
            elif i.op == 'resume' or i.op == 'unreachable':
                finds.append(Finding(f.name, 'not-total', i.op, 'does not return on some path', i.where()))
    if n < 161 or nins < 300:
        raise Broken('too few instances')
    return finds, {'obligations': n, 'discharged': n - len({f.fn for f in finds}), 'instructions': nins, 'checker_cmd': './check.py C14',
                   'trusted_base': ['clang 18 front end and LLVM inliner', 'tool/tian.cpp', 'lib/ssa.py']}, []
