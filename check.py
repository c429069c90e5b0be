#!/usr/bin/env python3
"""check.py PROPERTY [--replay FILE]: run the runtime monitors of one property.

VERIF_SEED, VERIF_TIER (quick|thorough) select the run; see DESIGN.md."""
import os
import sys

os.environ.setdefault('PYTHONHASHSEED', '0')
sys.dont_write_bytecode = True
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))

from vf import core  # noqa: E402


def entry():
    args = sys.argv[1:]
    if args == ['--selftest']:
        from vf import selftest
        return selftest.main()
    replay = None
    if '--replay' in args:
        i = args.index('--replay')
        replay = args[i + 1]
        del args[i:i + 2]
    tier = os.environ.get('VERIF_TIER', 'quick')
    if tier not in ('quick', 'thorough'):
        tier = 'quick'
    return core.main(args[0], tier, int(os.environ.get('VERIF_SEED', '1')), replay)


if __name__ == '__main__':
    sys.exit(entry())
