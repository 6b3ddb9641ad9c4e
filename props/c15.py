"""Nothing uninitialised reaches an output or a branch."""
import relate, relcheck
from props import c03
LEVEL = 'other'


def judge_one(R, limit):
    ind, n = R.ind, {'settled': 0, 'open': 0}
    for o, start in R.contexts_of(limit + 1):
        for kind in ('plain', 'ref'):
            if ind.fns[kind]:
                for m in (1, start, start + 1, start + R.more):
                    if m > 0:
                        a = R.batch(kind, m, o)
                        n['open' if a is None else 'settled'] += 1
        if ind.fns['run']:
            total, many = c03.cuts(start, R.more)
            for cut in [[total], [1] * total]:
                a = R.stream(cut, o, start)
                n['open' if a is None else 'settled'] += 1
    return [(fn, '%s depends on memory never initialised' % kind, '%s, %s' % (text, at), where) for fn, kind, text, where, at in R.undef.values()], n


def run(ctx, tier):
    return relcheck.judge(ctx, tier, judge_one, lambda r: True, 'use of uninitialised data', 140,
                          'every variant of every indicator is interpreted abstractly for a few option vectors and series lengths (streams: two sequences of calls); undefined SSA values and memory that was allocated and never written are tracked through arithmetic, memory and control; a value settled is a context in which none reaches an output or a branch',
                          relcheck.ASSUME[:1])
