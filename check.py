#!/usr/bin/env python3
"""check.py PROPERTY: decides one property for the current tree of /repo."""
import os, sys
PYVT = '/opt/veriftools/pyvenv/bin/python'
if os.path.realpath(sys.prefix) != os.path.realpath('/opt/veriftools/pyvenv') and os.path.exists(PYVT):
    os.execv(PYVT, [PYVT, os.path.abspath(__file__)] + sys.argv[1:])
sys.dont_write_bytecode = True
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
sys.setrecursionlimit(20000)
from pydv import runner
if __name__ == '__main__':
    tier = os.environ.get('VERIF_TIER', 'quick')
    if tier not in ('quick', 'thorough'): tier = 'quick'
    try: seed = int(os.environ.get('VERIF_SEED', '1'))
    except ValueError: seed = 1
    sys.exit(runner.main(sys.argv[1], tier, seed))
