"""No output depends on a bar that comes later, nor on how many bars follow."""
import relate, relcheck, shadow, vals
LEVEL = 'other'


def judge_one(R, limit):
    ind, finds, n = R.ind, [], {'settled': 0, 'open': 0}
    for o, start in R.contexts_of(limit):
        at = R.at(o)
        for kind in ('plain', 'ref', 'run'):
            fn = ind.fns[kind]
            if not fn:
                continue
            long = start + R.more
            get = (lambda m: R.stream([m], o, start)) if kind == 'run' else (lambda m: R.batch(kind, m, o))
            a = get(long)
            if not a:
                continue
            b = get(long - 2) or {}
            for (k, q), v in sorted(a.items()):
                last = (start + q + 1) * ind.nin         # first bit of the later bars
                may = v[0][1] >> 2 if not v[0][1] & shadow.UNK else None
                if v[0][2] is not None:
                    may = v[0][2].mask() if may is None else may & v[0][2].mask()
                    x = vals.essential(v[0][2]) >> last << last
                    if x:
                        finds.append((fn, 'output %d' % k, 'element %d (bar %d) is computed from %s, for size=%d, %s' % (
                            q, start + q, relate.barname(ind, (x & -x).bit_length() - 1), long, at), v[1].where()))
                        continue
                d = None
                if (k, q) in b:
                    d = relate.contrast(ind, b[(k, q)], v)
                    if d not in (None, vals.SAME):
                        finds.append((fn, 'output %d' % k, 'element %d changes when %d bars follow: %s, %s' % (q, 2, d, at), v[1].where()))
                        continue
                n['settled' if may is not None and not may >> last else 'open'] += 1
    return finds, n


def run(ctx, tier):
    return relcheck.judge(ctx, tier, judge_one, lambda r: True, 'output depends on later bars', 120,
                          'every variant of every indicator is interpreted abstractly for a few option vectors and two series lengths; each value carries the set of bars it may derive from (data and control) and a normal form over the bars; an element is settled when that set has no later bar, and a violation needs a later bar that certainly makes a difference, or different normal forms for the two lengths',
                          relcheck.ASSUME)
