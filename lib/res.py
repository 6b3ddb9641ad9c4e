"""Runs the acquisition typestate over every API entry point once (shared by C08 and C09)."""
import resflow, ssa

FAIL_RULES = {'exception-escapes', 'failure-not-reported', 'null-dereference'}
PAIR_RULES = {'leak', 'leak-on-exception', 'double-release', 'mismatched-release', 'use-after-release'}


def analyse(ctx):
    fns, _ = ctx.prog()
    may = resflow.May(fns)
    res, stats = [], {'functions': 0, 'sites': {}, 'by_callee': {}, 'undecided_exits': 0}
    api = [(f, k) for r, k, f in ctx.entries()]
    for f, k in api:
        P = ssa.Ptrs(f, k)
        stats['functions'] += 1
        ss = resflow.sites(f, may)
        if not ss:
            continue
        fl = resflow.Flow(f, k, P, may)
        for s in ss:
            stats['sites'][s.kind] = stats['sites'].get(s.kind, 0) + 1
            c = resflow.short(s.i)
            stats['by_callee'][c] = stats['by_callee'].get(c, 0) + 1
            for rule, msg, i in fl.analyse(s):
                res.append((f, k, s, rule, msg, i))
        stats['undecided_exits'] += fl.undecided
    return res, stats
