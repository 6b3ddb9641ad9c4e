"""The Python binding's view of the C ABI (structures, constants, error codes, signatures) matches the C headers."""
import ast, os, re, subprocess
import vbuild
from core import Finding, Broken
LEVEL = 'proof'
SCALAR = {'c_int': 'int', 'c_long': 'long', 'c_double': 'double', 'c_short': 'short', 'c_float': 'float', 'c_byte': 'signed char', 'c_ubyte': 'unsigned char',
          'c_ushort': 'unsigned short', 'c_uint': 'unsigned int', 'c_ulong': 'unsigned long', 'c_longlong': 'long long', 'c_ulonglong': 'unsigned long long',
          'c_size_t': 'unsigned long', 'c_ssize_t': 'long', 'c_int8': 'signed char', 'c_int16': 'short', 'c_int32': 'int', 'c_int64': 'long', 'c_uint8': 'unsigned char',
          'c_uint16': 'unsigned short', 'c_uint32': 'unsigned int', 'c_uint64': 'unsigned long', 'c_char': 'char', 'c_bool': '_Bool', 'c_longdouble': 'long double', 'c_wchar': 'int'}
SIZE = {'int': 4, 'unsigned int': 4, 'short': 2, 'unsigned short': 2, 'char': 1, 'signed char': 1, 'unsigned char': 1, '_Bool': 1, 'float': 4, 'long double': 16}
CT = {'c_char_p': ('char *', 8), 'c_void_p': (None, 8), 'c_wchar_p': ('int *', 8)}
CT.update({k: (v, SIZE.get(v, 8)) for k, v in SCALAR.items()})


def const(node, env):
    if isinstance(node, ast.Constant) and isinstance(node.value, (int, str)):
        return node.value
    if isinstance(node, ast.Name) and node.id in env:
        return env[node.id]
    if isinstance(node, ast.UnaryOp) and isinstance(node.op, ast.USub):
        v = const(node.operand, env)
        return None if v is None else -v
    if isinstance(node, ast.BinOp):
        a, b = const(node.left, env), const(node.right, env)
        if isinstance(a, int) and isinstance(b, int):
            return {ast.Add: a + b, ast.Sub: a - b, ast.Mult: a * b}.get(type(node.op))
    return None


def dotted(n):
    if isinstance(n, ast.Name):
        return n.id
    if isinstance(n, ast.Attribute):
        return n.attr
    return None


def run(ctx, tier):
    finds, ob = [], 0
    path = os.path.join(ctx.tree.repo, 'bindings/python/tindicators/impl.py')
    src = open(path, encoding='utf8').read()
    mod = ast.parse(src, path)
    env, structs, ret2exc = {}, {}, None
    for n in mod.body:
        if isinstance(n, ast.Assign) and len(n.targets) == 1 and isinstance(n.targets[0], ast.Name):
            v = const(n.value, env)
            if v is not None:
                env[n.targets[0].id] = v
            if isinstance(n.value, ast.Dict):
                ret2exc_c = [(const(k, env), dotted(v)) for k, v in zip(n.value.keys, n.value.values)]
                env[n.targets[0].id] = ret2exc_c
        if isinstance(n, ast.ClassDef) and any(dotted(b) in ('Structure', 'ctypes.Structure') for b in n.bases):
            for s in n.body:
                if isinstance(s, ast.Assign) and dotted(s.targets[0]) == '_fields_' and isinstance(s.value, (ast.List, ast.Tuple)):
                    fl = []
                    for e in s.value.elts:
                        nm = const(e.elts[0], env)
                        t = e.elts[1]
                        cnt = None
                        if isinstance(t, ast.BinOp) and isinstance(t.op, ast.Mult):
                            a, b = t.left, t.right
                            if dotted(a) not in CT:
                                a, b = b, a
                            cnt = const(b, env)
                            t = a
                        fl.append((nm, dotted(t), cnt, e.lineno))
                    structs[n.name] = fl
    if 'ti_indicator_info' not in structs or len(structs['ti_indicator_info']) < 10:
        raise Broken('the ctypes mirror of ti_indicator_info was not found in impl.py')

    rel = 'bindings/python/tindicators/impl.py'
    witnesses = []   # (anchor, where, message, C assertion)
    for sname, fl in structs.items():
        off = 0
        maxal = 1
        for nm, ct, cnt, line in fl:
            if ct not in CT:
                raise Broken('ctypes type %s of field %s not understood' % (ct, nm))
            sz = CT[ct][1]
            maxal = max(maxal, sz)
            off = (off + sz - 1) // sz * sz
            tot = sz * (cnt or 1)
            w = '%s:%d' % (rel, line)
            witnesses.append(('%s.%s offset' % (sname, nm), w, 'field %s of %s is at byte %d in Python' % (nm, sname, off), 'offsetof(%s, %s) == %d' % (sname, nm, off)))
            witnesses.append(('%s.%s size' % (sname, nm), w, 'field %s of %s has %d bytes in Python' % (nm, sname, tot), 'sizeof(((%s*)0)->%s) == %d' % (sname, nm, tot)))
            el = '((%s*)0)->%s%s' % (sname, nm, '[0]' if cnt is not None else '')
            if CT[ct][0]:
                witnesses.append(('%s.%s type' % (sname, nm), w, 'field %s of %s is a %s in Python' % (nm, sname, CT[ct][0]),
                                  '__builtin_types_compatible_p(__typeof__(%s), %s) || __builtin_types_compatible_p(__typeof__(%s), const %s)' % (el, CT[ct][0], el, CT[ct][0])))
            off += tot
        off = (off + maxal - 1) // maxal * maxal
        witnesses.append((sname + ' size', rel, '%s has %d bytes in Python' % (sname, off), 'sizeof(%s) == %d' % (sname, off)))
    for k, v in env.items():
        if k.startswith('TI_') and isinstance(v, int):
            witnesses.append((k, rel, '%s is %d in Python' % (k, v), '%s == %d' % (k, v)))
    # return codes
    exc = [(k, v) for k, v in env.items() if isinstance(v, list) and all(isinstance(a, int) for a, _ in v) and any('Option' in (b or '') for _, b in v)]
    if len(exc) != 1:
        raise Broken('the table of error codes was not found in impl.py')
    codes = dict(exc[0][1])
    CODE = {'InvalidOption': 'TI_INVALID_OPTION', 'OutOfMemory': 'TI_OUT_OF_MEMORY'}
    for code, cls in codes.items():
        if cls not in CODE:
            raise Broken('unknown exception class %s' % cls)
        witnesses.append(('error code %s' % cls, rel, 'return code %d raises %s in Python' % (code, cls), '%s == %d' % (CODE[cls], code)))
    for cls, c in CODE.items():
        ob += 1
        if cls not in codes.values():
            finds.append(Finding(rel, 'error-code-unmapped', c, 'no exception is raised for %s' % c))
    # return types of library functions used through ctypes
    rest = {}
    used = set()
    for n in ast.walk(mod):
        if isinstance(n, ast.Assign) and isinstance(n.targets[0], ast.Attribute) and n.targets[0].attr == 'restype':
            fn = dotted(n.targets[0].value)
            v = n.value
            rest[fn] = (dotted(v) if not isinstance(v, ast.Call) else '%s(%s)' % (dotted(v.func), dotted(v.args[0])))
        if isinstance(n, ast.Call) and isinstance(n.func, ast.Attribute) and n.func.attr.startswith('ti_'):
            used.add(n.func.attr)
    SIG = {'c_char_p': 'const char *', 'POINTER(ti_indicator_info)': 'const ti_indicator_info *', None: 'int'}
    SIG.update(SCALAR)
    for fn in sorted(used | {k for k in rest if k and k.startswith('ti_')}):
        t = rest.get(fn)
        if t not in SIG:
            raise Broken('restype %s of %s not understood' % (t, fn))
        arg = '(const char*)0' if fn == 'ti_find_indicator' else ''
        witnesses.append((fn + ' restype', rel, '%s is called as returning %s' % (fn, SIG[t]),
                          '__builtin_types_compatible_p(__typeof__(%s(%s)), %s)' % (fn, arg, SIG[t])))
    for priv in ('__start', '__run'):
        ob += 1
        if rest.get(priv, 'c_int') != 'c_int':
            finds.append(Finding(rel, 'restype', priv, 'the indicator functions return int, called as returning %s' % rest[priv]))
    witnesses.append(('TI_REAL', rel, 'bars are exchanged as c_double', '__builtin_types_compatible_p(TI_REAL, double)'))
    # compile-time witnesses
    ob += len(witnesses)
    cfile = os.path.join(ctx.tree.dir, 'abi_witness.c')

    def compile_(ws):
        with open(cfile, 'w') as h:
            h.write('#include <stddef.h>\n#include "indicators.h"\n')
            for j, (a, w, m, c) in enumerate(ws):
                h.write('#line %d "W"\n_Static_assert(%s, "w%d");\n' % (j + 1, c, j))
        r = subprocess.run([vbuild.CLANG, '-std=gnu11', '-ferror-limit=0', '-fsyntax-only', '-w', cfile], cwd=ctx.tree.dir, capture_output=True, text=True)
        return r.returncode, r.stderr
    rc, err = compile_([('t', '', '', '0')])
    if rc == 0:
        raise Broken('the compile-fail witness compiles')
    rc, err = compile_(witnesses)
    if rc:
        hits = {int(m.group(1)) - 1 for m in re.finditer(r'^W:(\d+):\d+: error', err, re.M)}
        if not hits:
            raise Broken('witness file does not compile: ' + err[:500])
        for j in sorted(hits):
            a, w, m, c = witnesses[j]
            finds.append(Finding(rel, 'abi', a, m + '; in the C header that does not hold: ' + c, w))
    if ob < 50:
        raise Broken('only %d witnesses' % ob)
    return finds, {'obligations': ob, 'discharged': ob - len(finds), 'structures': {k: len(v) for k, v in structs.items()}, 'checker_cmd': './check.py C12',
                   'trusted_base': ['clang 18 type checker and x86-64 layout', 'ctypes native layout rules']}, ['x86-64 System V layout']
