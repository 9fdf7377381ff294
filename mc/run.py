"""python -m mc.run C01 [--tier quick|thorough]   |   python -m mc.run --list"""
import argparse
import importlib
import os
import pathlib
import sys

from . import core


def load(prop):
    return importlib.import_module('mc.checks.%s' % prop.lower())


def main(argv=None):
    ap = argparse.ArgumentParser()
    ap.add_argument('prop', nargs='*')
    ap.add_argument('--tier', default=os.environ.get('VERIF_TIER') or 'quick', choices=['quick', 'thorough'])
    ap.add_argument('--seed', type=int, default=int(os.environ.get('VERIF_SEED') or 1))
    ap.add_argument('--jobs', type=int, default=None)
    ap.add_argument('--list', action='store_true')
    a = ap.parse_args(argv)
    if a.list:
        for p in sorted(pathlib.Path(__file__).parent.glob('checks/c[0-9][0-9].py')):
            print(p.stem.upper(), load(p.stem).__doc__.strip().splitlines()[0])
        return 0
    rc = 0
    for p in a.prop:
        os.environ['MC_TIER'] = a.tier
        rc = max(rc, core.run_check(load(p), a.tier, a.seed, a.jobs))
    return rc


if __name__ == '__main__':
    sys.stdout.reconfigure(line_buffering=True)
    code = main()
    sys.stdout.flush()
    sys.stderr.flush()
    sys.exit(code)
