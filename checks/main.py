import argparse
import importlib
import os
import sys

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, HERE)
REPO = os.environ.get('VERIF_REPO', '/repo')
sys.path.insert(0, REPO)

from vlib import harness  # noqa


def main():
    ap = argparse.ArgumentParser()
    ap.add_argument('prop', nargs='?')
    ap.add_argument('--replay')
    ap.add_argument('--selftest', action='store_true')
    ap.add_argument('--jobs', type=int)
    ap.add_argument('--probe')
    ap.add_argument('--seed', type=int)
    a = ap.parse_args()
    if a.selftest:
        from vlib import selftest
        return selftest.main()
    tier = os.environ.get('VERIF_TIER', 'quick')
    if tier not in ('quick', 'thorough'):
        tier = 'quick'
    seed = a.seed if a.seed is not None else int(
        os.environ.get('VERIF_SEED', '1') or 1)
    try:
        mod = importlib.import_module('checks.' + a.prop.lower())
    except Exception as e:
        import traceback
        traceback.print_exc()
        print('INCONCLUSIVE property=%s cannot import: %r' % (a.prop, e))
        return 2
    suite = mod.suite
    if a.probe:
        suite.probes = [p for p in suite.probes if p.name == a.probe]
        suite.required = []
    if a.replay:
        return harness.replay(suite, a.replay)
    merged, problems = harness.run_suite(suite, tier, seed, a.jobs)
    return harness.report(suite, merged, problems)


if __name__ == '__main__':
    sys.exit(main())
