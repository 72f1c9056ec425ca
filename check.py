#!/usr/bin/env python3
"""python check.py PROPERTY [--tier quick|thorough] [--seed N]
python check.py --replay FILE"""
import argparse
import os
import sys

VERIF = os.path.dirname(os.path.abspath(__file__))
PY = '/opt/venv/bin/python'
if os.environ.get('_BELLA_PBT') != '1':
    os.environ.update(
        _BELLA_PBT='1', PYTHONDONTWRITEBYTECODE='1', PYTHONHASHSEED='0',
        OMP_NUM_THREADS='1', OPENBLAS_NUM_THREADS='1', MPLBACKEND='Agg',
        PYTHONPATH=VERIF)
    os.execv(PY, [PY] + sys.argv)
sys.path.insert(0, VERIF)
from pbt import core  # noqa: E402


def main():
    ap = argparse.ArgumentParser()
    ap.add_argument('property', nargs='?')
    ap.add_argument('--tier', default=os.environ.get('VERIF_TIER', 'quick'))
    ap.add_argument('--seed', type=int,
                    default=int(os.environ.get('VERIF_SEED', '1') or 1))
    ap.add_argument('--only', nargs='*')
    ap.add_argument('--scale', type=float, default=1.0)
    ap.add_argument('--replay')
    args = ap.parse_args()
    if args.replay:
        prop, message = core.replay(args.replay)
        if message is None:
            print('replay: property %s held' % prop)
            return 0
        print('replay: %s' % message)
        print('VIOLATION property=%s replay=%s' % (prop, args.replay))
        return 1
    prop = args.property
    # recorded genuine defects that are not repaired: probed, never added here
    for finding in core.known_findings(prop):
        path = os.path.join(VERIF, finding['replay'])
        _, message = core.replay(path)
        if message is not None:
            print('KNOWN-FINDING: property=%s %s' % (prop, finding['what']))
    evidence, violations = core.run_property(
        prop, args.tier, args.seed, only=args.only, scale=args.scale)
    cov = evidence['coverage']
    print('%s %s seed=%d: %d cases, %d distinct non-trivial, %.1f s' % (
        prop, args.tier, args.seed, cov['evaluations'],
        cov['distinct_nontrivial'], evidence['wall_s']))
    for sub, data in cov['per_check'].items():
        print('   %-28s %6d cases %6d non-trivial  %s' % (
            sub, data['evaluations'], data['distinct_nontrivial'],
            data['classes']))
    for sub, case, message in violations:
        path = core.write_replay(prop, sub, case, message)
        print('  [%s] %s' % (sub, message))
        print('  case: %s' % str(case)[:2000])
        print('VIOLATION property=%s replay=%s' % (prop, path))
    return 1 if violations else 0


if __name__ == '__main__':
    try:
        code = main()
    except SystemExit:
        raise
    except BaseException:
        import traceback
        traceback.print_exc()
        print('ERROR: the check could not run')
        code = 3
    sys.stdout.flush()
    os._exit(code)
