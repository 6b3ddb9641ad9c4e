"""Batch functions: exactly the promised elements are read and written."""
import numcheck
LEVEL = 'other'
KINDS = ('read', 'write', 'order', 'count', 'write-in', 'readback', 'arg')


def run(ctx, tier):
    return numcheck.judge(ctx, tier, KINDS, (numcheck.BATCH,), 120)
