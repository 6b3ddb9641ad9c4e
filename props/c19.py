"""The plain, reference and stream variants compute the same values."""
import relate, relcheck, vals
LEVEL = 'other'


def judge_one(R, limit):
    ind, finds, n = R.ind, [], {'settled': 0, 'open': 0}
    for o, start in R.contexts_of(limit):
        m = start + R.more
        a = R.batch('plain', m, o)
        if not a:
            continue
        for kind in ('ref', 'run'):
            fn = ind.fns[kind]
            if not fn:
                continue
            b = R.batch('ref', m, o) if kind == 'ref' else R.stream([m], o, start)
            for ke, v in sorted(a.items()):
                if not b or ke not in b:
                    n['open'] += 1
                    continue
                d = relate.contrast(ind, v, b[ke])
                if d is None or d == vals.SAME:
                    n['settled' if d else 'open'] += 1
                else:
                    finds.append((fn, 'output %d' % ke[0], 'element %d: %s (%s first), size=%d, %s' % (
                        ke[1], d, ind.fns['plain'], m, R.at(o)), b[ke][1].where()))
    return finds, n


def run(ctx, tier):
    return relcheck.judge(ctx, tier, judge_one, lambda r: r.fns['ref'] or r.fns['run'], 'variants compute different values', 28,
                          'all variants of an indicator are interpreted abstractly on the same bars for a few option vectors; the normal forms (value numbers modulo the laws of rings, quotients, min, max, abs and comparisons) of every output element are compared; a violation is a bar, or a constant, that certainly has a different weight in two variants',
                          relcheck.ASSUME)
