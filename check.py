#!/usr/bin/env python3
"""check.py <property> [quick|thorough]   (runs under the python with z3 bindings)"""
import os
import sys

PY = '/opt/veriftools/pyvenv/bin/python3'
try:
    import z3  # noqa
except ImportError:
    if os.path.exists(PY) and os.environ.get('VP_REEXEC') != '1':
        os.environ['VP_REEXEC'] = '1'
        os.execv(PY, [PY] + sys.argv)
    raise
sys.dont_write_bytecode = True
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
sys.setrecursionlimit(20000)
from vp import runner

if __name__ == '__main__':
    runner.register()
    tier = sys.argv[2] if len(sys.argv) > 2 else os.environ.get('VERIF_TIER', 'quick')
    os.environ['VERIF_TIER'] = tier
    code = runner.main(sys.argv[1], tier)
    sys.stdout.flush()
    sys.exit(code)
