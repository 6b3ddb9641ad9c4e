"""Allocation failure is reported as TI_OUT_OF_MEMORY: no crash, no exception across the C API."""
import res, resflow
from core import Finding, Broken
LEVEL = 'proof'


def run(ctx, tier):
    r, st = res.analyse(ctx)
    finds = []
    for f, k, s, rule, msg, i in r:
        if rule in res.FAIL_RULES or rule == 'analysis-limit':
            finds.append(Finding(f.name, rule, resflow.short(s.i), msg, s.i.where()))
    n = sum(st['sites'].values())
    if n < 250 or len(st['sites']) < 3:
        raise Broken('only %d acquisition sites' % n)
    return finds, {'obligations': n, 'discharged': n - len({id(x) for x in finds}), 'functions': st['functions'], 'sites_by_kind': st['sites'], 'sites_by_callee': st['by_callee'],
                   'checker_cmd': './check.py C08', 'trusted_base': ['clang 18, LLVM inliner', 'tool/tian.cpp', 'lib/resflow.py']}, \
        ['operator new throws std::bad_alloc and malloc returns null on failure; element counts are within max_size']
