"""Invalid options are rejected before anything else happens."""
import optdom, ssa, effects
from core import Finding, Broken
LEVEL = 'other'


def pure_call(i):
    c = i.callee
    if c is None:
        return False
    return (c.startswith('llvm.') and effects.llvm_writes(i) is None) or c in effects.MATH


def nonzero_const(o):
    return o[0] == 'c' and o[1] not in (0,)


# options that count bars must be at least 1; lag by 0 bars is the identity, and the two decays use their
# period only as a rate (no bar is counted with it)
MINIMUM = {('lag', 'period'): 0, ('decay', 'period'): None, ('edecay', 'period'): None}


def counts(r):
    """{option number: minimum} for the options of r that are a number of bars"""
    res = {}
    for j, n in enumerate(r.opt_names[:r.nopt]):
        if n and 'period' in n.lower():
            m = MINIMUM.get((r.name, n), 1)
            if m is not None:
                res[j] = m
    return res


def run(ctx, tier):
    finds, nent, nrej, nins, nper, samples = [], 0, 0, 0, 0, []
    for r in ctx.registry:
        for k in ('plain', 'ref', 'new'):
            if not r.fns[k]:
                continue
            f = ctx.fn(r.fns[k])
            d = optdom.Decision(f, k)
            low = counts(r)
            nper += len(low)
            cs, how = optdom.cells(r.nopt, d.opts | set(low), d.consts, 3000 if tier == 'quick' else 40000)
            nent += 1
            rej = 0
            low_hit = set()
            for c in cs:
                v = d.verdict(c)
                if v == 'reject':
                    rej += 1
                elif v == 'accept':
                    for j, m in low.items():
                        if int(c[j]) < m and (j, 'x') not in low_hit:
                            low_hit.add((j, 'x'))
                            finds.append(Finding(f.name, 'too-small-period-accepted', r.opt_names[j].replace(' ', '_'), 'accepts options %s although %s is below %d' % (dict(zip(r.opt_names, c)), r.opt_names[j], m), f.file))
            nrej += rej
            P = ssa.Ptrs(f, k)
            # blocks executed on a rejecting vector, plus blocks of mixed verdicts that return 1 are reported by C06
            for b in sorted(d.rejecting_blocks):
                for i in f.blocks[b]:
                    nins += 1
                    bad = None
                    if i.op == 'store':
                        bs = {x[0] for x in P.bases(i.ops[1])}
                        if bs - {'alloca'}:
                            bad = ('store', 'writes memory (%s)' % ', '.join(sorted(bs)))
                    elif i.op == 'load':
                        bs = {x[0] for x in P.bases(i.ops[0])}
                        if 'in' in bs or 'out' in bs:
                            bad = ('bar-read', 'reads a bar')
                    elif i.op in ('call', 'invoke'):
                        if not pure_call(i) and not (effects.llvm_writes(i) is not None and all(x[0] == 'alloca' for o in effects.llvm_writes(i) for x in P.bases(o))):
                            bad = ('call', 'calls %s' % (i.cdem or '?')[:60])
                    elif i.op in ('sdiv', 'srem', 'udiv', 'urem') and not nonzero_const(i.ops[1]):
                        bad = ('division', 'divides by an option-derived integer')
                    if bad:
                        finds.append(Finding(f.name, 'effect-before-rejection', bad[0], bad[1] + ' on the way to TI_INVALID_OPTION', i.where()))
            if len(samples) < 6 and rej:
                samples.append({'entry': f.name, 'rejecting_cells': rej, 'of': len(cs), 'blocks_on_rejecting_paths': len(d.rejecting_blocks), 'how': how})
    if nper < 200:
        raise Broken('only %d period options found in the registry' % nper)
    if nent < 250 or nrej < 2000:
        raise Broken('too few instances: %d entry points, %d rejecting cells' % (nent, nrej))
    return finds, {'explanation': 'For every option cell an entry point rejects, the blocks executed before TI_INVALID_OPTION (conditional constant propagation) are scanned for effects: allocation or other calls, stores outside locals, reads of bars, division by option-derived integers. Every option named as a period is also required to be rejected below its minimum in every cell.',
                   'entry_points': nent, 'rejecting_cells': nrej, 'period_option_instances': nper, 'instructions_on_rejecting_paths': nins, 'samples': samples}, ['options are not NaN or infinite']
