"""The indicator table tells the truth about every indicator, and handles dispatch to their own indicator."""
import ssa, effects
from core import Finding, Broken
LEVEL = 'proof'


def run(ctx, tier):
    finds, ob = [], 0
    reg = ctx.registry
    gls = ctx.globals()
    fns, _ = ctx.prog()
    y = ctx.tree.yaml()

    def bad(fn, rule, anchor, msg, where=''):
        finds.append(Finding(fn, rule, anchor, msg, where))
    # --- description = table
    names = [r.name for r in reg]
    for n in y:
        ob += 1
        if n not in names:
            bad(n, 'described-not-registered', 'table', 'is described in indicators.yaml but not in the compiled table')
    TYPES = {'overlay': 1, 'indicator': 2, 'math': 3, 'simple': 4, 'comparative': 5}
    for r in reg:
        ob += 1
        if r.name not in y:
            bad(r.name, 'registered-not-described', 'table', 'is in the compiled table but not in indicators.yaml')
            continue
        full, typ, ins, opts, outs, feats, _src = y[r.name]
        feats = feats or []
        if r.full != full:
            bad(r.name, 'full-name', 'table', 'full name is %r, described as %r' % (r.full, full))
        if TYPES.get(typ) != r.type:
            bad(r.name, 'type', 'table', 'type is %s, described as %s' % (r.type, typ))
        for what, n, got, want in (('inputs', r.nin, r.in_names, ins), ('options', r.nopt, r.opt_names, opts), ('outputs', r.nout, r.out_names, outs)):
            ob += 1
            want = list(want or [])
            if n != len(want) or got[:len(want)] != want or len(got) != 10 or any(x is not None for x in got[len(want):]) or len(want) > 9:
                bad(r.name, 'names', what, '%s: count %d, names %s; described as %s (at most 9)' % (what, n, [x for x in got if x], want))
        for k in ('start', 'plain', 'ref', 'new', 'run', 'free'):
            ob += 1
            want = {'start': 'ti_%s_start', 'plain': 'ti_%s', 'ref': 'ti_%s_ref', 'new': 'ti_%s_stream_new', 'run': 'ti_%s_stream_run',
                    'free': 'ti_%s_stream_free'}[k] % r.name
            need = k in ('start', 'plain') or (k == 'ref' and 'ref' in feats) or (k in ('new', 'run', 'free') and 'stream' in feats)
            if need and r.fns[k] != want:
                bad(r.name, 'entry-point', k, 'the %s slot holds %s, expected %s' % (k, r.fns[k], want))
            if not need and r.fns[k] is not None:
                bad(r.name, 'entry-point', k, 'the %s slot holds %s but the feature is not described' % (k, r.fns[k]))
            if r.fns[k] and r.fns[k] not in fns:
                bad(r.name, 'no-body', k, '%s has no definition' % r.fns[k])
    # --- implementation uses exactly what is declared
    off_index = dispatch(ctx, bad)
    for r, k, f in ctx.entries():
        P = ssa.Ptrs(f, k)
        wrote = set()
        for i in f.all():
            if i.op == 'load':
                root, c = P.off(i.ops[0])
                for b in P.bases(i.ops[0]):
                    lim = {'options': r.nopt, 'inputs': r.nin, 'outputs': r.nout}.get(b[0])
                    if lim is None:
                        continue
                    ob += 1
                    if c is None:
                        continue
                    if c % 8 or not 0 <= c // 8 < lim:
                        bad(f.name, 'undeclared-' + b[0], str(c // 8), 'uses %s[%d] but only %d are declared' % (b[0], c // 8, lim), i.where())
            dests = []
            if i.op == 'store':
                dests = [i.ops[1]]
            elif i.op in ('call', 'invoke'):
                dests = effects.llvm_writes(i) or ([o for o in i.ops if o[0] in ('v', 'gep')] if i.callee and not i.callee.startswith('llvm.') else [])
            for o in dests:
                for b in P.bases(o):
                    if b[0] == 'out':
                        wrote.add(b[1])
            if k == 'new' and i.op == 'store' and any(b == ('heap', x) or b == ('stream',) for b in P.bases(i.ops[1]) for x in [b[1] if len(b) > 1 else None]):
                pass
        if k in ('plain', 'ref', 'run'):
            for o in range(r.nout):
                ob += 1
                if o not in wrote and None not in wrote:
                    bad(f.name, 'output-never-written', str(o), 'declared output %d (%s) is never written' % (o, r.out_names[o]), f.file)
        if k == 'new':
            ob += 1
            vals = index_values(f, P, off_index)
            if not vals:
                bad(f.name, 'index', 'unset', 'never sets the index of the stream it creates', f.file)
            for v, i in vals:
                if v != r.pos:
                    bad(f.name, 'index', 'wrong', 'the stream it creates carries index %s, its table position is %d' % (v, r.pos), i.where())
    # --- count
    ob += 1
    c = ctx.fn('ti_indicator_count')
    if c is None:
        raise Broken('ti_indicator_count not found')
    rv = {tuple(i.ops[0]) for i in c.all() if i.op == 'ret'}
    if rv != {('c', len(reg))}:
        bad('ti_indicator_count', 'count', 'count', 'returns %s, the table has %d entries' % (sorted(rv), len(reg)))
    if len(ctx.table) != len(reg) + 1:
        bad('ti_indicators', 'terminator', 'table', 'the table ends with %d terminating entries instead of one' % (len(ctx.table) - len(reg)))
    if ob < 3000:
        raise Broken('too few obligations: %d' % ob)
    return finds, {'obligations': ob, 'discharged': ob - len(finds), 'indicators': len(reg), 'checker_cmd': './check.py C10',
                   'trusted_base': ['codegen.py is run to produce the table that is compiled', 'clang 18', 'tool/tian.cpp']}, []


def index_values(f, P, off):
    res = []
    for i in f.all():
        if i.op == 'store' and (i.vty or '').startswith('i32'):
            root, c = P.off(i.ops[1])
            bs = P.bases(i.ops[1])
            if c == off and any(b[0] in ('heap', 'stream') for b in bs):
                res.append((i.ops[0][1] if i.ops[0][0] == 'c' else None, i))
    # a zero-initialisation leaves index 0: only explicit stores count, the last word is checked by value
    return res


def dispatch(ctx, bad):
    """ti_stream_run / free / get_info / get_progress dispatch on the handle's own index.  Returns the index' offset."""
    g = ctx.globals()['ti_indicators']
    es = g['size'] // len(ctx.table)
    off = None
    for name, field in (('ti_stream_run', es - 16), ('ti_stream_free', es - 8), ('ti_stream_get_info', None)):
        f = ctx.fn(name)
        if f is None:
            raise Broken(name + ' not found')
        P = ssa.Ptrs(f, None)

        def entry(o, want):
            """o addresses ti_indicators[stream->index] + want"""
            nonlocal off
            c, var = 0, []
            while True:
                if o[0] == 'gep':
                    c += o[2]
                    var += o[3]
                    o = o[1]
                elif o[0] == 'v' and o[1] in f.defs and f.defs[o[1]].op == 'getelementptr':
                    o = f.defs[o[1]].gep
                else:
                    break
            if o != ['g', 'ti_indicators'] or c != want or len(var) != 1 or var[0][1] != es:
                return False
            v = var[0][0]
            while v[0] == 'v' and v[1] in f.defs and f.defs[v[1]].op in ('sext', 'zext'):
                v = f.defs[v[1]].ops[0]
            d = f.defs.get(v[1]) if v[0] == 'v' else None
            if d is None or d.op != 'load':
                return False
            root, k = P.off(d.ops[0])
            if root != ['v', f.args[0]] or k is None:
                return False
            if off is None:
                off = k
            return k == off
        if field is None:
            rets = [i for i in f.all() if i.op == 'ret']
            if not rets or not all(entry(i.ops[0], 0) for i in rets):
                bad(name, 'dispatch', 'entry', 'does not return the table entry of the stream\'s own index', f.file)
            continue
        calls = [i for i in f.all() if i.op in ('call', 'invoke') and i.callee is None]
        ok = bool(calls)
        for i in calls:
            d = f.defs.get(i.d['cptr'][1]) if i.d['cptr'][0] == 'v' else None
            if d is None or d.op != 'load' or not entry(d.ops[0], field):
                ok = False
            if i.ops != [['v', a] for a in f.args]:
                ok = False
        for i in f.all():
            if i.op == 'ret' and i.ops and not any(i.ops[0] == ['v', c.id] for c in calls):
                ok = False
        if not ok:
            bad(name, 'dispatch', 'entry', 'does not forward its arguments to, and return the result of, the function of the stream\'s own table entry', f.file)
    f = ctx.fn('ti_stream_get_progress')
    if f is None:
        raise Broken('ti_stream_get_progress not found')
    P = ssa.Ptrs(f, None)
    # the progress field is where stream_new stores -start
    pr = None
    for i in f.all():
        if i.op == 'ret':
            d = f.defs.get(i.ops[0][1]) if i.ops[0][0] == 'v' else None
            root, k = P.off(d.ops[0]) if d is not None and d.op == 'load' else (None, None)
            if root != ['v', f.args[0]] or k is None or k == off:
                bad('ti_stream_get_progress', 'dispatch', 'progress', 'does not return a field of the handle', f.file)
    return 0 if off is None else off
