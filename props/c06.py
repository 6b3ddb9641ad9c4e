"""All entry points of an indicator accept the same option vectors."""
import optdom
from core import Finding, Broken
LEVEL = 'other'


def run(ctx, tier):
    finds, ncmp, ncell, samples = [], 0, 0, []
    nrej = 0
    for r in ctx.registry:
        ds = {}
        for k in ('plain', 'ref', 'new'):
            if r.fns[k]:
                ds[k] = optdom.Decision(ctx.fn(r.fns[k]), k)
        opts, consts = set(), set()
        for d in ds.values():
            opts |= d.opts
            consts |= d.consts
        cs, how = optdom.cells(r.nopt, opts, consts, 3000 if tier == 'quick' else 40000)
        bad = {}
        for c in cs:
            vs = {k: d.verdict(c) for k, d in ds.items()}
            ncell += 1
            for k, v in vs.items():
                if v == 'mixed':
                    bad.setdefault(('mixed', k), c)
                if v == 'reject':
                    nrej += 1
                if k != 'plain':
                    if v != vs['plain'] and 'mixed' not in (v, vs['plain']):
                        bad.setdefault((v, k), c)
        ncmp += len(ds) - 1
        for (v, k), c in bad.items():
            names = dict(zip(r.opt_names, c))
            if v == 'mixed':
                finds.append(Finding(r.fns[k], 'verdict-depends-on-more-than-options', 'mixed', 'for options %s whether the vector is rejected depends on something other than the options' % names, ctx.fn(r.fns[k]).file))
            else:
                finds.append(Finding(r.fns[k], 'option-sets-differ', '%s-only-here' % v, '%ss options %s, %s does not' % (v, names, r.fns['plain']), ctx.fn(r.fns[k]).file))
        if len(samples) < 8:
            samples.append({'indicator': r.name, 'entry_points': list(ds), 'cells': len(cs), 'how': how})
    if ncmp < 95:
        raise Broken('only %d sibling comparisons' % ncmp)
    return finds, {'explanation': 'Each entry point\'s validation decision is extracted from its flattened IR by conditional constant propagation of the options and compared between plain, ref and stream_new on one representative per ordering of the options and the constants they are compared with.',
                   'sibling_pairs': ncmp, 'option_cells': ncell, 'rejecting_verdicts': nrej, 'samples': samples}, ['options are not NaN or infinite']
