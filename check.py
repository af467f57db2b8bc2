#!/usr/bin/env python3
"""check.py C01 [--tier quick|thorough]   decide one property on /repo's tree"""
import argparse
import importlib
import os
import sys
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
sys.dont_write_bytecode = True
from vlib.runner import Run, CheckError  # noqa: E402


def main():
    ap = argparse.ArgumentParser()
    ap.add_argument('prop', nargs='?')
    ap.add_argument('--setup', action='store_true')
    ap.add_argument('--tier', default=os.environ.get('VERIF_TIER', 'quick'))
    ap.add_argument('--only', help='run only harnesses whose name contains this')
    ap.add_argument('--jobs', type=int, default=8)
    a = ap.parse_args()
    if a.setup:
        from vlib.runner import ensure_engine, ensure_pomelo
        print(ensure_engine())
        print(ensure_pomelo()[0])
        return
    seed = int(os.environ.get('VERIF_SEED', '1') or 1)
    mod = importlib.import_module('props.' + a.prop.lower())
    run = Run(a.prop, a.tier, seed, jobs=a.jobs)
    run.only = a.only
    try:
        run.prepare()
        rc = mod.check(run)
    except CheckError as e:
        print('ERROR', e)
        rc = 3
    sys.stdout.flush()
    sys.exit(rc)


if __name__ == '__main__':
    main()
