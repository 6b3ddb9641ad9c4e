"""Sweeps the numeric engine over batch functions and streams and turns its verdicts into findings and coverage."""
import numdrv, numst, sweep
from core import Finding, Broken
RULES = {'read': 'input read outside the series', 'write': 'output element outside the promised range',
         'order': 'output elements written out of order', 'count': 'number of written elements differs from what is due',
         'write-in': 'writes to an input', 'readback': 'reads an output element it has not written',
         'buffer': 'working memory accessed out of range', 'arg': 'entry of an argument array that does not exist',
         'term': 'loop without end', 'alloc': 'negative allocation size', 'progress': 'progress does not count the bars'}
BUDGET = {'quick': 12, 'thorough': 60}
ASSUME = ['functions listed as undecided are not judged', 'option values are finite and within int range; sizes are below 2^31 minus the largest period',
          'pointers loaded from inside standard containers point into that container; a value looked up in a container is there',
          'allocations succeed (failing ones are C08)']
BATCH, STREAM = 'batch', 'stream'


def judge(ctx, tier, kinds, parts, floor):
    ctx.prog('flat', ('--norot',))
    jobs = []
    if BATCH in parts:
        jobs += [(r, k) for r in ctx.registry for k in ('plain', 'ref') if r.fns[k]]
    if STREAM in parts:
        jobs += [(r, 'run') for r in ctx.registry if r.fns['run']]
    size = lambda n: sum(len(b) for b in ctx.fn(n, 'flat', ('--norot',)).blocks)
    jobs.sort(key=lambda j: -size(j[0].fns[j[1]]) * (4 if j[1] == 'run' else 1))      # long ones first
    budget = BUDGET.get(tier, 12)

    def one(r, k):
        st, obs, info = numst.decide(ctx, r, kinds, budget) if k == 'run' else numdrv.decide(ctx, r, k, kinds, budget)
        return sweep.pack(st, obs, info, kinds)
    res = sweep.sweep(one, jobs)
    finds, und, nob, nproved, samples, contexts = [], [], 0, 0, [], 0
    for (r, k), ((st, obs, info), t) in zip(jobs, res):
        name = r.fns[k]
        if st == 'crash':
            und.append('%s (analysis failed: %s)' % (name, info['gaveup'].strip().splitlines()[-1]))
            continue
        contexts += info.get('contexts') or 0
        if st == 'proved':
            nproved += 1
            nob += len(obs)
            if len(samples) < 4 and obs:
                o = obs[-1]
                samples.append('%s: %s %s at %s holds in all %d abstract states' % (name, o[1], o[2], o[3], o[5]))
        elif st == 'undecided':
            und.append('%s (%s)' % (name, info.get('gaveup') or '%d open obligations' % sum(1 for o in obs if o[0] != 'proved')))
        else:
            where = sweep.showctx(r, info.get('at'), k == 'run')
            for o in obs:
                if o[0] == 'violated':
                    finds.append(Finding(name, RULES[o[1]], o[2], '%s%s' % (o[4], ' for ' + where if where else ''), o[3]))
    bad = len({f.fn for f in finds})
    if nproved + bad < floor:
        raise Broken('only %d of %d functions decided: %s' % (nproved, len(jobs), und[:10]))
    cov = {'explanation': 'abstract interpretation over convex polyhedra (size, options, positions, cursors, progress, container sizes): every batch function for all sizes and accepted options at once, every stream with an invariant between calls that covers every sequence of calls; a function is proved when every obligation holds in every abstract state, and a violation is reported only when the abstract state is exact and breaks the obligation',
           'functions': len(jobs), 'batch_functions': sum(1 for j in jobs if j[1] != 'run'), 'streams': sum(1 for j in jobs if j[1] == 'run'),
           'proved': nproved, 'violated': bad, 'undecided': len(und), 'narrow_contexts': contexts,
           'obligations_proved': nob, 'undecided_functions': sorted(und), 'samples': samples, 'rules': [RULES[k] for k in kinds],
           'cpu_s': int(sum(t for _, t in res))}
    return finds, cov, ASSUME
