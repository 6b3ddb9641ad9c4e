"""Every call returns: each loop has a counter that is bounded in the direction it moves."""
import numcheck
LEVEL = 'other'
KINDS = ('term',)


def run(ctx, tier):
    return numcheck.judge(ctx, tier, KINDS, (numcheck.BATCH, numcheck.STREAM), 120)
