"""Streams: progress counts bars, and fixes how many elements a call writes; nothing outside the series is read."""
import numcheck
LEVEL = 'other'
KINDS = ('progress', 'count', 'order', 'write', 'read', 'write-in', 'readback', 'arg')


def run(ctx, tier):
    return numcheck.judge(ctx, tier, KINDS, (numcheck.STREAM,), 25)
