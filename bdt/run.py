"""bdt/run.py <property> [--tier quick|thorough] [--replay FILE]; VERIF_SEED and VERIF_TIER are honoured."""
import os
import sys

# NumPy's AVX-512 loops (pow, sin, ...) return results whose last bit depends on where the operands happen to lie in memory,
# so two identical computations can differ; without them every computation here is reproducible.
ENV = {'PYTHONHASHSEED': '0', 'NPY_DISABLE_CPU_FEATURES': 'AVX512F AVX512CD AVX512_SKX AVX512_CLX AVX512_CNL AVX512_ICL'}
if any(os.environ.get(k) != v for k, v in ENV.items()):
    os.environ.update(ENV)
    os.execv(sys.executable, [sys.executable, '-B'] + sys.argv)

sys.dont_write_bytecode = True
sys.path.insert(0, os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
import argparse  # noqa: E402
import importlib  # noqa: E402


def run():
    ap = argparse.ArgumentParser()
    ap.add_argument('property', nargs='?')
    ap.add_argument('--self-test', action='store_true', help='check that everything can be loaded and the reference is consistent')
    ap.add_argument('--tier', default=os.environ.get('VERIF_TIER') or 'quick', choices=['quick', 'thorough'])
    ap.add_argument('--replay')
    ap.add_argument('--seed', type=int, default=int(os.environ.get('VERIF_SEED') or '1'))
    a = ap.parse_args()
    if a.self_test:
        import glob
        import bdt.boot
        from bdt import ref
        ref.selftest()
        names = sorted(os.path.basename(f)[:-3] for f in glob.glob(os.path.join(bdt.boot.VERIF, 'bdt', 'checks', 'c[0-9]*.py')))
        for n in names:
            importlib.import_module('bdt.checks.' + n)
        print('{} checks loaded'.format(len(names)))
        return 0
    try:
        import bdt.boot  # noqa: F401
        from bdt import runner
        check = importlib.import_module('bdt.checks.' + a.property.lower()).CHECK
    except Exception:
        import traceback
        traceback.print_exc()
        print('HARNESS ERROR: cannot load the check or the code under test')
        return 2
    if a.replay:
        return runner.replay(check, a.replay)
    return runner.main(check, a.tier, a.seed)


sys.exit(run())
