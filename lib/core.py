"""Shared context of all checks: the program, the registry, findings, known findings, evidence."""
import json, os, re, sys, time
import vbuild, ssa
from vbuild import Broken, VERIF


class Finding:
    def __init__(self, fn, rule, anchor, msg, where=''):
        self.fn, self.rule, self.anchor, self.msg, self.where = fn, rule, anchor, msg, where

    @property
    def key(self):
        return '%s|%s|%s' % (self.fn, self.rule, self.anchor)

    def text(self):
        return '[%s] %s: %s (%s)%s' % (self.rule, self.fn, self.msg, self.anchor, ' at ' + self.where if self.where else '')


def flat_init(x):
    """names of a {ptr, [n x ptr]} initialiser in order"""
    out = []
    if isinstance(x, list):
        for y in x:
            out += flat_init(y)
    elif isinstance(x, dict):
        out.append(x.get('str') if 'str' in x else (None if 'null' in x else x))
    else:
        out.append(x)
    return out


class Indicator:
    pass


KINDS = ('start', 'plain', 'ref', 'new', 'run', 'free')


class Ctx:
    def __init__(self, repo=None):
        self.tree = vbuild.Tree(repo)
        self._progs = {}
        self._fn = {}

    def prog(self, mode='flat', extra=()):
        return self.tree.ir(mode, extra)

    def fn(self, name, mode='flat', extra=()):
        k = (name, mode, tuple(extra))
        if k not in self._fn:
            fns, _ = self.prog(mode, extra)
            d = fns.get(name)
            self._fn[k] = ssa.Fn(d) if d else None
        return self._fn[k]

    def globals(self, mode='flat'):
        return self.prog(mode)[1]

    _reg = None

    @property
    def registry(self):
        """indicators of the compiled table ti_indicators, in table order (terminator excluded)"""
        if self._reg is not None:
            return self._reg
        g = self.globals().get('ti_indicators')
        if not g or not isinstance(g.get('init'), list):
            raise Broken('the compiled indicator table ti_indicators was not found')
        res = []
        for e in g['init']:
            if not isinstance(e, list) or len(e) != 15:
                raise Broken('unexpected layout of an entry of ti_indicators')
            r = Indicator()
            f = lambda x: x.get('fn') if isinstance(x, dict) else None
            r.name = e[0].get('str')
            r.full = e[1].get('str')
            r.fns = {'start': f(e[2]), 'plain': f(e[3]), 'ref': f(e[4]), 'new': f(e[12]), 'run': f(e[13]), 'free': f(e[14])}
            r.type, r.nin, r.nopt, r.nout = e[5:9]
            r.in_names, r.opt_names, r.out_names = (flat_init(x) for x in e[9:12])
            r.pos = len(res)
            res.append(r)
        self.table = res
        while res and res[-1].name is None:
            res = res[:-1]
        self._reg = res
        if len(res) < 161:
            raise Broken('only %d indicators in the compiled table (161 expected at least)' % len(res))
        return res

    def entries(self, kinds=KINDS, mode='flat', extra=()):
        """(indicator, kind, Fn) for every registered entry point that is defined"""
        for r in self.registry:
            for k in kinds:
                n = r.fns[k]
                if n:
                    f = self.fn(n, mode, extra)
                    if f is None:
                        raise Broken('registered entry point %s has no body' % n)
                    yield r, k, f


# ---------------------------------------------------------------- known findings
def known():
    res = {}
    p = os.path.join(VERIF, 'known_findings.txt')
    if os.path.exists(p):
        for line in open(p):
            line = line.strip()
            m = re.match(r'known: property=(\S+) key=(\S+) count=(\d+) (.*)$', line)
            if m:
                res[(m.group(1), m.group(2))] = (int(m.group(3)), m.group(4))
            elif line and not line.startswith('#') and not line.startswith('fixed:'):
                raise Broken('unparsable line in known_findings.txt: ' + line)
    return res


def report(prop, findings, coverage, level, assumptions, t0, tier):
    """print the verdict, write evidence, return the exit code"""
    kn = known()
    seen, viol, knownhit = {}, [], {}
    for f in findings:
        k = (prop, f.key.replace(' ', '_'))
        seen[k] = seen.get(k, 0) + 1
        if k in kn and seen[k] <= kn[k][0]:
            knownhit.setdefault(k, []).append(f)
        else:
            viol.append(f)
    os.makedirs(os.path.join(VERIF, 'evidence'), exist_ok=True)
    for k, fs in knownhit.items():
        print('KNOWN-FINDING: property=%s %s' % (prop, kn[k][1]))
    coverage = dict(coverage)
    coverage['known_findings'] = len(knownhit)
    ev = {'property': prop, 'tier': tier, 'seed': int(os.environ.get('VERIF_SEED', '1') or 1), 'level': level,
          'coverage': coverage, 'assumptions': assumptions, 'wall_s': round(time.time() - t0, 2), 'violations': len(viol)}
    with open(os.path.join(VERIF, 'evidence', prop + '.json'), 'w') as h:
        json.dump(ev, h, indent=1)
    if viol:
        rp = os.path.join(VERIF, 'evidence', prop + '.violations.txt')
        with open(rp, 'w') as h:
            for f in viol:
                h.write(f.text() + '\n')
        for f in viol[:40]:
            print('  ' + f.text())
        if len(viol) > 40:
            print('  ... %d more' % (len(viol) - 40))
        print('VIOLATION property=%s replay=%s' % (prop, rp))
        return 1
    print('OK property=%s %s' % (prop, json.dumps({k: v for k, v in coverage.items() if isinstance(v, int)})))
    return 0
