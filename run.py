#!/usr/bin/env python3
"""run.py check <id> [--tier quick|thorough] [--seed N] | replay <file> | list"""
import os
import sys

HERE = os.path.dirname(os.path.abspath(__file__))
sys.dont_write_bytecode = True
sys.path[:0] = [os.path.join(HERE, 'lib'), os.path.join(HERE, 'props')]

import core  # noqa: E402


def main():
    a = sys.argv[1:]
    if len(a) >= 2 and a[0] == 'check':
        tier = os.environ.get('VERIF_TIER') or 'quick'
        seed = int(os.environ.get('VERIF_SEED') or 1)
        if '--tier' in a:
            tier = a[a.index('--tier') + 1]
        if '--seed' in a:
            seed = int(a[a.index('--seed') + 1])
        sys.exit(core.run_check(a[1], tier, seed))
    if len(a) == 2 and a[0] == 'replay':
        sys.exit(core.run_replay(a[1]))
    print(__doc__)
    sys.exit(2)


if __name__ == '__main__':
    main()
