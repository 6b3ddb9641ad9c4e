"""A stream computes the same values however the series is cut into calls."""
import relate, relcheck, vals
LEVEL = 'other'


def cuts(c, more):
    n = c + more + 1
    r = [[1] * n, [c + 1, n - c - 1], [0, c + 2, 0, n - c - 2], [n - 1, 1]]
    if c > 0:
        r.append([c, n - c])
    if c > 1:
        r.append([1, c - 1, 2, 0, n - c - 2])
    if n > 6:
        r.append([2, 3, n - 5])
    return n, r


def judge_one(R, limit):
    ind, finds, n = R.ind, [], {'settled': 0, 'open': 0}
    fn = ind.fns['run']
    for o, start in R.contexts_of(limit):
        total, many = cuts(start, R.more)
        whole = R.stream([total], o, start)
        if not whole:
            continue
        ones = None
        for cut in many:
            b = R.stream(cut, o, start)
            if not b:
                continue
            ones = ones or b
            for ke, v in sorted(whole.items()):
                at = '%s, bars in one call against calls of sizes %s' % (R.at(o), cut)
                if ke not in b:
                    continue
                d = relate.contrast(ind, v, b[ke])
                if d is None and b is not ones and ke in ones:
                    d = relate.contrast(ind, ones[ke], b[ke])
                    d = None if d == vals.SAME else d
                n['settled' if d == vals.SAME else 'open'] += d is None or d == vals.SAME
                if d not in (None, vals.SAME):
                    finds.append((fn, 'output %d' % ke[0], 'element %d: %s, %s' % (ke[1], d, at), b[ke][1].where()))
    return finds, n


def run(ctx, tier):
    return relcheck.judge(ctx, tier, judge_one, lambda r: r.fns['run'], 'result depends on how the series is cut into calls', 28,
                          'every stream is interpreted abstractly from construction through several sequences of run calls with the same bars (one call, bar by bar, cuts in and after the warm-up, empty calls); state is carried between the calls in the abstract stream object; the normal forms of every output element over the bars are compared with those of a single call',
                          relcheck.ASSUME)
