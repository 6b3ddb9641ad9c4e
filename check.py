#!/opt/veriftools/pyvenv/bin/python
"""check.py PROPERTY [--list-keys]: decide one property on /repo's working tree (exit 0 / 1; 2 = analysis broken)."""
import importlib, os, sys, time, traceback
sys.dont_write_bytecode = True
if os.environ.get('PYTHONHASHSEED') != '0':         # sets are iterated in the same order in every run
    os.environ['PYTHONHASHSEED'] = '0'
    os.execv(sys.executable, [sys.executable, '-B'] + sys.argv)
HERE = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, os.path.join(HERE, 'lib'))
sys.path.insert(0, os.path.join(HERE, 'props'))
import core


def main():
    prop = sys.argv[1]
    tier = os.environ.get('VERIF_TIER', 'quick')
    t0 = time.time()
    try:
        mod = importlib.import_module(prop.lower())
        ctx = core.Ctx()
        findings, coverage, assumptions = mod.run(ctx, tier)
        if '--list-keys' in sys.argv:
            import collections
            c = collections.Counter(f.key.replace(' ', '_') for f in findings)
            first = {}
            for f in findings:
                first.setdefault(f.key.replace(' ', '_'), f)
            for k, n in c.items():
                print('known: property=%s key=%s count=%d %s' % (prop, k, n, first[k].text()))
            return 0
        return core.report(prop, findings, coverage, mod.LEVEL, assumptions, t0, tier)
    except core.Broken as e:
        print('ANALYSIS BROKEN property=%s: %s' % (prop, e))
        return 2
    except Exception:
        traceback.print_exc()
        print('ANALYSIS BROKEN property=%s' % prop)
        return 2


sys.exit(main())
