#!/usr/bin/env python3
"""Run one check:  run_check.py C04 [--tier quick|thorough] [--replay FILE]

Exit 0: the property held on everything explored.
Exit 1 and a line "VIOLATION property=<id> replay=<path>": it is broken.
Anything else is an error of the check.
"""
import os
import sys

WANT = {'PYTHONHASHSEED': '0', 'PYTHONUTF8': '1', 'LC_ALL': 'C.UTF-8', 'PYTHONDONTWRITEBYTECODE': '1'}
if __name__ == '__main__' and any(os.environ.get(k) != v for k, v in WANT.items()):
    os.environ.update(WANT)
    for k in ('PYTHONPATH', 'PYTHONHOME', 'PYTHONOPTIMIZE', 'PYTHONWARNINGS'):
        os.environ.pop(k, None)
    os.execv(sys.executable, [sys.executable] + sys.argv)

HERE = os.path.dirname(os.path.abspath(__file__))
sys.dont_write_bytecode = True
sys.pycache_prefix = '/nonexistent/pycache'      # never trust stale byte code of the code under test
sys.path.insert(0, HERE)

if __name__ == '__main__':
    from harness.runner import main
    sys.exit(main(sys.argv[1:]))
