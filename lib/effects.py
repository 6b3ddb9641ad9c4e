"""Effect summaries: what an entry point (flattened) or an opaque callee writes, calls and retains."""
import ssa

MATH = {'sqrt', 'pow', 'log', 'log10', 'log2', 'log1p', 'exp', 'exp2', 'expm1', 'cos', 'sin', 'tan', 'acos', 'asin', 'atan', 'atan2', 'cosh', 'sinh',
        'tanh', 'acosh', 'asinh', 'atanh', 'fabs', 'fmax', 'fmin', 'floor', 'ceil', 'round', 'trunc', 'fmod', 'hypot', 'cbrt', 'abs', 'labs', 'rint',
        'lround', 'lrint', 'nearbyint', 'modf', 'ldexp', 'frexp', 'copysign', 'remainder', 'fdim', 'fma', 'lgamma_r', 'tgamma', 'erf', 'erfc',
        'sqrtf', 'powf', 'fabsf', 'isnan', 'isinf', 'div', 'ldiv', 'scalbn', 'logb', 'ilogb'}
MEM = {'memcpy', 'memmove', 'memset', 'memcmp', 'strcmp', 'strlen', 'strncmp', 'memchr', 'bcmp'}
EH = {'__cxa_begin_catch', '__cxa_end_catch', '__cxa_throw', '__cxa_rethrow', '__cxa_allocate_exception', '__cxa_free_exception',
      '__gxx_personality_v0', '_Unwind_Resume', '__clang_call_terminate', '_ZSt9terminatev', '__cxa_throw_bad_array_new_length',
      '__cxa_call_unexpected', '__cxa_get_exception_ptr', 'abort', '__assert_fail', '__stack_chk_fail'}
STDLIB_PURE = ('_ZSt17__throw_', '_ZSt20__throw_', '_ZSt16__throw_', '_ZSt19__throw_', '_ZSt24__throw_', '_ZSt28__throw_', '_ZSt21__throw', '_ZSt25__throw',
               '_ZSt18__throw', '_ZSt22__throw', '_ZSt23__throw',
               '_ZSt18_Rb_tree_increment', '_ZSt18_Rb_tree_decrement', '_ZSt29_Rb_tree_insert_and_rebalance', '_ZSt28_Rb_tree_rebalance_for_erase',
               '_ZNSt9exception', '_ZNSt9bad_alloc', '_ZNSt20bad_array_new_length', '_ZNSt12length_error', '_ZNSt12out_of_range', '_ZNKSt9', '_ZNSt15__exception_ptr')


def external_ok(name):
    return (name in MATH or name in MEM or name in EH or name in ssa.ALLOCS or name.startswith(('_Zdl', '_Zda')) or name == 'free'
            or name.startswith('llvm.') or name.startswith(STDLIB_PURE))


def llvm_writes(i):
    """pointer operands written by an intrinsic / libc memory call"""
    c = i.callee or ''
    if c.startswith(('llvm.memset', 'llvm.memcpy', 'llvm.memmove')) or c in ('memset', 'memcpy', 'memmove'):
        return [i.ops[0]]
    return None


class Summary:
    """for functions that stay calls: which pointer arguments may be written through (transitively),
    external callees reached, globals written"""

    def __init__(self, fns):
        self.fns = fns
        self.memo = {}

    def get(self, name):
        if name in self.memo:
            return self.memo[name]
        s = {'wargs': set(), 'ext': set(), 'gl': set(), 'indirect': False, 'retain': set()}
        self.memo[name] = s
        d = self.fns.get(name)
        if d is None:
            s['ext'].add(name)
            return s
        for _ in range(3):
            n0 = (len(s['wargs']), len(s['ext']), len(s['gl']))
            self._scan(d, s)
            if n0 == (len(s['wargs']), len(s['ext']), len(s['gl'])):
                break
        return s

    def _scan(self, d, s):
        f = ssa.Fn(d)
        P = ssa.Ptrs(f, None)

        def roots(b):
            while b[0] == 'fld':
                b = b[1]
            return b

        def wr(o, i):
            for b in P.bases(o):
                b = roots(b)
                if b[0].startswith('arg') and b[0][3:].isdigit():
                    s['wargs'].add(int(b[0][3:]))
                elif b[0] == 'g':
                    s['gl'].add((b[1], i.where()))
        for i in f.all():
            if i.op == 'store':
                wr(i.ops[1], i)
            elif i.op in ('atomicrmw', 'cmpxchg'):
                wr(i.ops[0], i)
            elif i.op in ('call', 'invoke'):
                if i.callee is None:
                    s['indirect'] = True
                    continue
                w = llvm_writes(i)
                if w is not None:
                    for o in w:
                        wr(o, i)
                    continue
                if i.callee.startswith('llvm.'):
                    continue
                if i.callee not in self.fns:
                    s['ext'].add(i.callee)
                    if not external_ok(i.callee):
                        for o in i.ops:
                            wr(o, i)
                    continue
                t = self.get(i.callee)
                s['ext'] |= t['ext']
                s['gl'] |= t['gl']
                s['indirect'] |= t['indirect']
                for k in t['wargs']:
                    if k < len(i.ops):
                        wr(i.ops[k], i)
