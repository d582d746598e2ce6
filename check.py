#!/usr/bin/env python3-vt
"""check.py <property> [unit-filter] [-v]: verify one property of /repo's current tree"""
import os
import sys
sys.dont_write_bytecode = True
HERE = os.path.dirname(os.path.abspath(__file__))
REPO = os.environ.get('PYVC_REPO', '/repo')
sys.path[:0] = [REPO, HERE]
sys.pycache_prefix = '/nonexistent/pyc'
sys.setrecursionlimit(20000)
import importlib

if __name__ == '__main__':
    prop = sys.argv[1]
    mod = importlib.import_module('specs.p_%s' % prop.lower())
    from pyvc import driver
    rc = driver.main(prop, mod, sys.argv[2:])
    sys.stdout.flush()
    os._exit(rc)
