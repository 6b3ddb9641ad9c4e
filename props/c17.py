"""Working memory is never accessed out of range, allocation sizes are never negative."""
import numcheck
LEVEL = 'other'
KINDS = ('buffer', 'alloc')


def run(ctx, tier):
    return numcheck.judge(ctx, tier, KINDS, (numcheck.BATCH, numcheck.STREAM), 120)
