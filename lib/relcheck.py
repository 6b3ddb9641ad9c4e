"""Sweeps Runs over all indicators and turns what was compared into findings and coverage."""
import os, traceback
import relate, sweep, vals
from core import Finding, Broken

BUDGET = {'quick': (30, 3), 'thorough': (200, 9)}


def judge(ctx, tier, one, select, rule, floor, what, assumptions):
    """one(Runs, limit) -> ([(fn, what, detail, where)], counts); only indicators select(ind) holds for"""
    ctx.prog('flat', ('--norot',))
    size = lambda r: sum(len(b) for n in r.fns.values() if n for b in ctx.fn(n, 'flat', ('--norot',)).blocks)
    jobs = sorted(((r,) for r in ctx.registry if select(r)), key=lambda j: -size(j[0]))
    budget, limit = BUDGET.get(tier, BUDGET['quick'])

    def run(r):
        R = relate.Runs(ctx, r, budget)
        finds, counts = one(R, limit)
        return finds, counts, {'gaveup': R.giveup[:2], 'contexts': R.contexts}
    finds, tot, seen, und, contexts, full, samples = [], {}, 0, [], 0, 0, []
    for (r,), (res, t) in zip(jobs, sweep.sweep(run, jobs)):
        if isinstance(res[0], str):
            und.append('%s (%s)' % (r.name, res[2]['gaveup'].strip().splitlines()[-1]))
            continue
        fs, counts, info = res
        contexts += info['contexts']
        done = counts.get('settled', 0)
        seen += done > 0
        full += done > 0 and not counts.get('open')
        for k, v in counts.items():
            tot[k] = tot.get(k, 0) + v
        if not done:
            und.append('%s (%s)' % (r.name, (info['gaveup'] or ['values not tracked'])[0]))
        elif counts.get('open'):
            und.append('%s (%d of %d values not tracked)' % (r.name, counts['open'], counts['open'] + done))
        elif len(samples) < 4:
            samples.append('%s: %d values settled in %d contexts' % (r.name, done, info['contexts']))
        done = set()
        for fn, w, detail, where in fs:
            if (fn, w, where) not in done:
                done.add((fn, w, where))
                finds.append(Finding(fn, rule, w, detail, where))
    if seen + len({f.fn for f in finds}) < floor:
        raise Broken('only %d of %d indicators decided: %s' % (seen, len(jobs), und[:10]))
    cov = {'explanation': what, 'indicators': len(jobs), 'indicators_with_settled_values': seen, 'indicators_settled_completely': full,
           'contexts': contexts, 'values_settled': tot.get('settled', 0), 'values_not_tracked': tot.get('open', 0),
           'not_settled': sorted(und), 'samples': samples, 'rules': [rule]}
    return finds, cov, assumptions


ASSUME = ['each context fixes the option values and the number of bars; all bar values are covered at once',
          'bars are generic: compared values do not tie, denominators are not zero, no bar is NaN; rounding is disregarded',
          'values without a normal form are counted and not judged']
